// Stands in for the header which /repo's build system generates for the generator.
#pragma once
#define PROJECT_NAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME_UPPER "REFLECTIVE_RAPIDJSON_GENERATOR"
#define PROJECT_LICENSE "GPL-2.0+"
#define PROJECT_CONFIG_NAME ""
#define APP_NAME "Reflection for RapidJSON"
#define APP_VERSION "0"
#define APP_VERSION_MAJOR 0
#define APP_VERSION_MINOR 0
#define APP_VERSION_PATCH 0
#define APP_AUTHOR ""
#define APP_CREDITS ""
#define APP_URL ""
#define APP_DOMAIN ""
#define APP_DESCRIPTION ""
#define DEPENCENCY_VERSIONS { "C++ Utilities" }
