// stands in for the header CMake generates
#pragma once
#define RTTI_API __attribute__((visibility("default")))
#define RTTI_PRIVATE __attribute__((visibility("hidden")))
#define RTTI_DEPRECATED __attribute__((__deprecated__))
