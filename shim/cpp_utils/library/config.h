#pragma once
#define CPP_UTILS_VERSION_MAJOR 1
#define CPP_UTILS_VERSION_MINOR 5
#define CPP_UTILS_VERSION_MICRO 1
#define CPP_UTILS_VERSION_STRING "v1.5.1"
#define CPP_UTILS_COMMIT_HASH "none"
