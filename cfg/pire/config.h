#define PIRE_ALIGNOF_SIZE_T 8
#define PIRE_ALIGNOF_UINT64_T 8
#define PIRE_HAVE_ALIGNAS 1
#define PIRE_HAVE_ATTR_ALIGNED 1
#define PIRE_HAVE_DLFCN_H 1
#define PIRE_HAVE_INTTYPES_H 1
#define PIRE_HAVE_LAMBDAS 1
#define PIRE_HAVE_MALLOC 1
#define PIRE_HAVE_MEMORY_H 1
#define PIRE_HAVE_MEMSET 1
#define PIRE_HAVE_PTRDIFF_T 1
#define PIRE_HAVE_SCOPED_EXPR 1
#define PIRE_HAVE_STDINT_H 1
#define PIRE_HAVE_STDLIB_H 1
#define PIRE_HAVE_STRCHR 1
#define PIRE_HAVE_STRINGS_H 1
#define PIRE_HAVE_STRING_H 1
#define PIRE_HAVE_SYS_STAT_H 1
#define PIRE_HAVE_SYS_TIME_H 1
#define PIRE_HAVE_SYS_TYPES_H 1
#define PIRE_HAVE_UNISTD_H 1
#define PIRE_LT_OBJDIR ".libs/"
#define PIRE_PACKAGE "pire"
#define PIRE_PACKAGE_BUGREPORT "galtsev@yandex-team.ru"
#define PIRE_PACKAGE_NAME "pire"
#define PIRE_PACKAGE_STRING "pire 0.0.6"
#define PIRE_PACKAGE_TARNAME "pire"
#define PIRE_PACKAGE_URL ""
#define PIRE_PACKAGE_VERSION "0.0.6"
#define PIRE_STDC_HEADERS 1
#define PIRE_VERSION "0.0.6"
