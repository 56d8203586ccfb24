/* Fixed configuration for building libloc's sources inside the checks
 * (mirrors what ./configure finds in this sandbox). */
#define HAVE_ENDIAN_H 1
#define HAVE_MADVISE 1
#define HAVE_MMAP 1
#define HAVE_MUNMAP 1
#define HAVE_QSORT 1
#define HAVE_RES_QUERY 1
#define HAVE_SECURE_GETENV 1
#define LIBLOC_DEFAULT_DATABASE_PATH "/var/lib/location/database.db"
#define PACKAGE "libloc"
#define PACKAGE_NAME "libloc"
#define PACKAGE_STRING "libloc 0.9.17"
#define PACKAGE_VERSION "0.9.17"
#define VERSION "0.9.17"
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
