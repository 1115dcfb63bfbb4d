// force-included when compiling src/main.cpp: gives the application's entry point a C name
extern "C" int app_main(int, char**);
#define main app_main
