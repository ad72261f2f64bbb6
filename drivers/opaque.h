// Opaque element types: the containers' code is verified for an arbitrary element type whose own (de)serialization
// is only known by its contract. The functions are declared, never defined.
#pragma once
#include <functional>
struct OpqV {                 // any type serialized through a JSON value
    int tag;
    bool operator==(const OpqV &) const = default;
    bool operator<(const OpqV &) const;
};
template <> struct std::hash<OpqV> { std::size_t operator()(const OpqV &) const noexcept; };
