/* stand-in for the autoconf config.h (configure cannot run here) */
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#ifndef HAVE_CLOCK_GETTIME
#define HAVE_CLOCK_GETTIME 1
#endif
#define HAVE_CLOCK_NANOSLEEP 1
#define HAVE_ENDIAN_H 1
#define HAVE_DECL_HTOLE16 1
#define PACKAGE_VERSION "0"
#define VERSION "0"
#endif
