/* minimal configuration used to compile /repo/src for the harnesses */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_JANSSON 1
#define HAVE_ARCHIVE 1
#define HAVE_PUZZLE 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "ftwin"
#define PACKAGE_NAME "ftwin"
#define PACKAGE_TARNAME "ftwin"
#define PACKAGE_VERSION "verif"
#define PACKAGE_STRING "ftwin verif"
#define PACKAGE_BUGREPORT "verif@localhost"
#define PACKAGE_URL ""
#define VERSION "verif"
#define STDC_HEADERS 1
#endif
