// The code generator's sources as one translation unit; see DESIGN.md. Nothing here is executed.
#include "generator/codegenerator.cpp"
#include "generator/serializationcodegenerator.cpp"
#include "generator/jsonserializationcodegenerator.cpp"
#include "generator/binaryserializationcodegenerator.cpp"
#include "generator/visitor.cpp"
#include "generator/consumer.cpp"
#include "generator/frontendaction.cpp"
#include "generator/codefactory.cpp"
#include "gen_kinds.h"
#include "generator/main.cpp"
