// stand-in for the generated Version.hpp
static const char versionString[64] = "0.0.0";
