/*
	What the harnesses need around libloc's API: a quiet context, database files in
	memory, and the link-time stand-ins (--wrap) for system calls.
*/
#ifndef LK_H
#define LK_H

#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

#include <libloc/libloc.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/database.h>
#include <libloc/format.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/writer.h>

#include "mc.h"
#include "model.h"
#include "enc.h"

extern struct loc_ctx* lk_ctx;
void lk_init(void);				// sets up lk_ctx
struct loc_ctx* lk_new_ctx(void);

// A FILE backed by an anonymous file holding these bytes
FILE* lk_file(const void* data, size_t length);
// The complete contents of a file (malloc()ed)
unsigned char* lk_contents(FILE* f, size_t* length);

// Opens a database, which must succeed
struct loc_database* lk_open_bytes(const void* data, size_t length);
struct loc_database* lk_open_enc(const struct enc* e);
struct loc_database* lk_open_writer(struct loc_writer* w);

// Live memory mappings of files made through the stand-ins
extern int lk_mappings;
// Live allocations made by the program (needs a sanitizer build)
extern long lk_live_allocs;
// Open file descriptors (below 256)
int lk_open_fds(void);

// Reads a network returned by the library into the model's form
void lk_read(struct loc_network* n, net_t* out);
void lk_check_net(struct loc_network* n, const net_t* want, const char* what);
uint64_t lk_hash_net(uint64_t h, const net_t* n);

// Adds a network to a writer; returns the error code
int lk_add(struct loc_writer* w, const net_t* n);

// Fault injection for the stand-ins: called before each call; a non-zero return value is an errno
extern int (*lk_fault)(const char* call);

#endif
