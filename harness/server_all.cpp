// The same program in one translation unit.
#include "server_declare.cpp"
#include "server_read.cpp"
#include "server_main.cpp"
