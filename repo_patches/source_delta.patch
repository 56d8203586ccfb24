From 6c0d08388ae47843075cb895a823c49c531deb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 001/103] fix: lookup: Fall back to the covering network

When the tree had a branch for the address that did not end in a
network, the lookup stopped there and reported that nothing was found
even if a less specific network contained the address. The recursion
also inspected bit 128 of the address for single-host networks.
---
 src/database.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..592b309 100644
--- a/src/database.c
+++ b/src/database.c
@@ -887,14 +887,18 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	if (!node_v1)
 		return 1;
 
-	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
-
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+	// Follow the path (unless we have already used all bits of the address)
+	if (level < 128) {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
+
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	} else {
+		node_index = 0;
+	}
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
@@ -909,7 +913,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
 		// End here if a result was found
-		if (r == 0)
+		if (r == 0 && *network)
 			return r;
 
 		// Raise any errors
-- 
2.43.0


From 7b3902381b36d1b5bca5a64cabfd5dabccc5d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 002/103] fix: network: Ignore bits beyond the prefix when
 detecting IPv4 networks

The address that is passed when a network is read from the database may
carry bits of the searched address below the network's prefix. This could
make a large IPv6 network look like an IPv4 one.
---
 src/network.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 69306a9..cdb3a3a 100644
--- a/src/network.c
+++ b/src/network.c
@@ -663,11 +663,15 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// The address might have some bits set that are not covered by the prefix
+	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
+	struct in6_addr first_address = loc_address_and(address, &bitmask);
+
 	// Adjust prefix for IPv4
-	if (IN6_IS_ADDR_V4MAPPED(address))
+	if (IN6_IS_ADDR_V4MAPPED(&first_address))
 		prefix -= 96;
 
-	int r = loc_network_new(ctx, network, address, prefix);
+	int r = loc_network_new(ctx, network, &first_address, prefix);
 	if (r) {
 		ERROR(ctx, "Could not allocate a new network: %m\n");
 		return r;
-- 
2.43.0


From 616d39e0fb4c782009527d00d46c63dbcddb01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:26 +0000
Subject: [PATCH 003/103] fix: tree: Do not use a network after it has been
 released by merging

loc_network_tree_merge_step() asked the network for its prefix after it
had been removed from the tree, which could have dropped the last
reference to it.
---
 src/network-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..bac2de3 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -351,6 +351,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	struct loc_network* m = NULL;
 	int r;
 
+	// Fetch the prefix now because the network might be released when it is being merged
+	const unsigned int prefix = loc_network_prefix(network);
+
 	// How many networks do we have?
 	size_t i = loc_network_list_size(ctx->networks);
 
@@ -431,8 +434,6 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 		n = NULL;
 	}
 
-	const unsigned int prefix = loc_network_prefix(network);
-
 	// Remove any networks that we cannot merge
 	loc_network_list_remove_with_prefix_smaller_than(ctx->networks, prefix);
 
-- 
2.43.0


From 8b936ff84ac410efbf66c8c69389d5e5984d1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 004/103] fix: enumerator: Do not write beyond the end of the
 network stack

---
 src/database.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 592b309..82a9f89 100644
--- a/src/database.c
+++ b/src/database.c
@@ -96,7 +96,9 @@ struct loc_database {
 	struct loc_database_objects country_objects;
 };
 
-#define MAX_STACK_DEPTH 256
+// The tree can be up to 128 levels deep and we keep up to two nodes on the stack for each level
+#define MAX_TREE_DEPTH 128
+#define MAX_STACK_DEPTH (2 * MAX_TREE_DEPTH + 2)
 
 struct loc_node_stack {
 	off_t offset;
@@ -1264,8 +1266,15 @@ static int loc_database_enumerator_stack_push_node(
 	if (!offset)
 		return 0;
 
+	// Networks cannot be longer than an address
+	if (depth > MAX_TREE_DEPTH) {
+		ERROR(e->ctx, "Maximum tree depth exceeded: %d\n", depth);
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if there is any space left on the stack
-	if (e->network_stack_depth >= MAX_STACK_DEPTH) {
+	if (e->network_stack_depth >= MAX_STACK_DEPTH - 1) {
 		ERROR(e->ctx, "Maximum stack size reached: %d\n", e->network_stack_depth);
 		return 1;
 	}
-- 
2.43.0


From ab296ab143a627f882afc56533c3ae198e70776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 005/103] fix: network-list: Summarize ranges exactly

The networks have been cut by the number of common bits of both addresses,
which does not take the alignment of the first address into account. Ranges
that consist of a single address were refused and all networks leaked.
---
 src/libloc/address.h |  7 ++-----
 src/network-list.c   | 38 ++++++++++++++++++++------------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..519d21d 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -144,11 +144,8 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
 		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
-
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		// (the result of __builtin_ctz is undefined for zero)
+		int trailing_zeroes = (address->s6_addr[octet]) ? __builtin_ctz(address->s6_addr[octet]) : 8;
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..33aac65 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -322,7 +322,7 @@ LOC_EXPORT int loc_network_list_merge(
 
 int loc_network_list_summarize(struct loc_ctx* ctx,
 		const struct in6_addr* first, const struct in6_addr* last, struct loc_network_list** list) {
-	int bits;
+	unsigned int bits;
 	int r;
 
 	if (!list) {
@@ -342,9 +342,9 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		return 1;
 	}
 
-	// Check if the last address is larger than the first address
-	if (loc_address_cmp(first, last) >= 0) {
-		ERROR(ctx, "The first address must be smaller than the last address\n");
+	// Check if the last address is not smaller than the first address
+	if (loc_address_cmp(first, last) > 0) {
+		ERROR(ctx, "The first address must not be larger than the last address\n");
 		errno = EINVAL;
 		return 1;
 	}
@@ -353,20 +353,21 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 	struct in6_addr start = *first;
 
 	while (loc_address_cmp(&start, last) <= 0) {
-		// Count how many leading bits the IP addresses have in common
-		bits = loc_address_common_bits(&start, last);
-		if (bits < 0)
-			return bits;
-
-		// If the start and end address don't have any bits in common, we try
-		// to cut the subnet into halves and try again...
-		else if (bits == 0)
-			bits = 1;
-
-		// Create a network
-		r = loc_network_new(ctx, &network, &start, bits);
-		if (r)
-			return r;
+		// The largest possible network that starts here is limited by the alignment of the address
+		bits = loc_address_bit_length(&start);
+
+		// Create a network, but make it smaller as long as it exceeds the last address
+		while (1) {
+			r = loc_network_new(ctx, &network, &start, bits);
+			if (r)
+				return r;
+
+			if (loc_address_cmp(loc_network_get_last_address(network), last) <= 0)
+				break;
+
+			loc_network_unref(network);
+			bits++;
+		}
 
 		DEBUG(ctx, "Found network %s, %s -> %s\n",
 			loc_network_str(network),
@@ -383,6 +384,7 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 
 		// The next network starts right after this one
 		start = *loc_network_get_last_address(network);
+		loc_network_unref(network);
 
 		// If we have reached the end of possible IP addresses, we stop
 		if (loc_address_all_ones(&start))
-- 
2.43.0


From c31e23c014b7ec2bbab9b103f8060fb8372a45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:59 +0000
Subject: [PATCH 006/103] fix: enumerator: Return bogons at the very start and
 end of the address space

Networks which consist of a single address right after the last one were
skipped, the gap after a network that ended where the address space begins was
lost and networks that reach to the end of the address space returned a bogon.
---
 src/database.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/database.c b/src/database.c
index 82a9f89..9081879 100644
--- a/src/database.c
+++ b/src/database.c
@@ -141,6 +141,12 @@ struct loc_database_enumerator {
 	// For bogons
 	struct in6_addr gap6_start;
 	struct in6_addr gap4_start;
+
+	enum loc_database_gap_state {
+		LOC_GAP_NONE = 0, // There is no network of this family, yet
+		LOC_GAP_OPEN,     // The gap starts after the last network
+		LOC_GAP_CLOSED,   // We reached the end of the address space
+	} gap6_state, gap4_state;
 };
 
 /*
@@ -1559,6 +1565,7 @@ static int __loc_database_enumerator_next_bogon(
 
 	struct loc_network* network = NULL;
 	struct in6_addr* gap_start = NULL;
+	enum loc_database_gap_state* gap_state = NULL;
 	struct in6_addr gap_end = IN6ADDR_ANY_INIT;
 
 	while (1) {
@@ -1589,10 +1596,12 @@ static int __loc_database_enumerator_next_bogon(
 		switch (family) {
 			case AF_INET6:
 				gap_start = &enumerator->gap6_start;
+				gap_state = &enumerator->gap6_state;
 				break;
 
 			case AF_INET:
 				gap_start = &enumerator->gap4_start;
+				gap_state = &enumerator->gap4_state;
 				break;
 
 			default:
@@ -1605,17 +1614,17 @@ static int __loc_database_enumerator_next_bogon(
 		const struct in6_addr* last_address = loc_network_get_last_address(network);
 
 		// Skip if this network is a subnet of a former one
-		if (loc_address_cmp(gap_start, last_address) >= 0) {
+		if (*gap_state == LOC_GAP_CLOSED || loc_address_cmp(gap_start, last_address) > 0) {
 			loc_network_unref(network);
 			continue;
 		}
 
-		// Search where the gap could end
-		gap_end = *first_address;
-		loc_address_decrement(&gap_end);
-
 		// There is a gap
-		if (loc_address_cmp(gap_start, &gap_end) <= 0) {
+		if (loc_address_cmp(gap_start, first_address) < 0) {
+			// The gap ends right before this network
+			gap_end = *first_address;
+			loc_address_decrement(&gap_end);
+
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
 			if (r) {
@@ -1626,7 +1635,13 @@ static int __loc_database_enumerator_next_bogon(
 
 		// The gap now starts after this network
 		*gap_start = *last_address;
-		loc_address_increment(gap_start);
+
+		if (loc_address_all_ones(gap_start)) {
+			*gap_state = LOC_GAP_CLOSED;
+		} else {
+			loc_address_increment(gap_start);
+			*gap_state = LOC_GAP_OPEN;
+		}
 
 		loc_network_unref(network);
 
@@ -1639,7 +1654,7 @@ static int __loc_database_enumerator_next_bogon(
 	return 0;
 
 FINISH:
-	if (!loc_address_all_zeroes(&enumerator->gap6_start)) {
+	if (enumerator->gap6_state == LOC_GAP_OPEN) {
 		r = loc_address_reset_last(&gap_end, AF_INET6);
 		if (r)
 			return r;
@@ -1651,11 +1666,11 @@ FINISH:
 				return r;
 		}
 
-		// Reset start
-		loc_address_reset(&enumerator->gap6_start, AF_INET6);
+		// We are done with this family
+		enumerator->gap6_state = LOC_GAP_CLOSED;
 	}
 
-	if (!loc_address_all_zeroes(&enumerator->gap4_start)) {
+	if (enumerator->gap4_state == LOC_GAP_OPEN) {
 		r = loc_address_reset_last(&gap_end, AF_INET);
 		if (r)
 			return r;
@@ -1667,8 +1682,8 @@ FINISH:
 				return r;
 		}
 
-		// Reset start
-		loc_address_reset(&enumerator->gap4_start, AF_INET);
+		// We are done with this family
+		enumerator->gap4_state = LOC_GAP_CLOSED;
 	}
 
 	// Try to return something
-- 
2.43.0


From f0582a6094b5b5fee50b0032eee9ea9d51d08999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 007/103] fix: network: Split IPv6 networks correctly that
 contain the IPv4 address space

The second half of such a network could not be created because the address of
the first half could not be incremented, or because its prefix was not valid for
IPv4. Excluding or flattening any IPv4 network inside ::/0 failed.
---
 src/network.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index cdb3a3a..854b150 100644
--- a/src/network.c
+++ b/src/network.c
@@ -351,9 +351,13 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 	if (r)
 		return r;
 
-	// The next subnet starts after the first one
-	struct in6_addr first_address = (*subnet1)->last_address;
-	loc_address_increment(&first_address);
+	// The second half is where the next bit is set
+	struct in6_addr first_address = network->first_address;
+	loc_address_set_bit(&first_address, network->prefix, 1);
+
+	// All of IPv4 is one half of an IPv6 network
+	if (network->family == AF_INET6 && loc_address_family(&first_address) == AF_INET)
+		prefix -= 96;
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-- 
2.43.0


From a4fada46fb378bd78ff56552d14e96cad2eda885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:41 +0000
Subject: [PATCH 008/103] fix: network-list: Do not stop summarizing IPv6
 ranges at the end of IPv4

---
 src/network-list.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/network-list.c b/src/network-list.c
index 33aac65..c3438dc 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -386,11 +386,17 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		start = *loc_network_get_last_address(network);
 		loc_network_unref(network);
 
-		// If we have reached the end of possible IP addresses, we stop
-		if (loc_address_all_ones(&start))
+		// If we have reached the end, we stop
+		if (loc_address_cmp(&start, last) >= 0)
 			break;
 
-		loc_address_increment(&start);
+		// IPv6 continues after the end of the IPv4 address space
+		if (family1 == AF_INET6 && loc_address_family(&start) == AF_INET) {
+			loc_address_reset(&start, AF_INET6);
+			start.s6_addr[9] = 1;
+		} else {
+			loc_address_increment(&start);
+		}
 	}
 
 	return 0;
-- 
2.43.0


From 216ee2a42c217a9491746411afc1c5d50bc87b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:47 +0000
Subject: [PATCH 009/103] fix: writer: Sort all countries and do not write
 uninitialized memory

Countries were written in the order they have been added, but are searched
for using a binary search. Countries without a continent inherited the one of
the previous country and the padding of networks was not initialized.
---
 src/network.c | 3 +++
 src/writer.c  | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/network.c b/src/network.c
index 854b150..38df4cc 100644
--- a/src/network.c
+++ b/src/network.c
@@ -651,6 +651,9 @@ int loc_network_merge(struct loc_network** n,
 }
 
 int loc_network_to_database_v1(struct loc_network* network, struct loc_database_network_v1* dbobj) {
+	// Clear everything (including any padding)
+	memset(dbobj, '\0', sizeof(*dbobj));
+
 	// Add country code
 	loc_country_code_copy(dbobj->country_code, network->country_code);
 
diff --git a/src/writer.c b/src/writer.c
index ec5f896..52ed54f 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -526,6 +526,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the country list first because it is being searched by code later
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
@@ -534,12 +537,18 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
 
+		// Clear everything from the previous country
+		memset(&block, '\0', sizeof(block));
+
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
 
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From e9f790f302dfb42038776c9d5fae7ccf0c93ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:52 +0000
Subject: [PATCH 010/103] fix: stringpool: Allocate enough space for long
 strings

Strings that are longer than one block were written beyond the end of the
allocated memory. Also, find the empty string so that it is not being appended
over and over again.
---
 src/stringpool.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..c983683 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -45,16 +45,17 @@ struct loc_stringpool {
 static int loc_stringpool_grow(struct loc_stringpool* pool, const size_t size) {
 	DEBUG(pool->ctx, "Growing string pool by %zu byte(s)\n", size);
 
-	// Increment size
-	pool->size += size;
-
 	// Reallocate blocks
-	pool->blocks = realloc(pool->blocks, pool->size);
-	if (!pool->blocks) {
+	char* blocks = realloc(pool->blocks, pool->size + size);
+	if (!blocks) {
 		ERROR(pool->ctx, "Could not grow string pool: %m\n");
-		return 1;
+		return -1;
 	}
 
+	// Increment size
+	pool->blocks = blocks;
+	pool->size += size;
+
 	// Update data pointer
 	pool->data = pool->blocks;
 
@@ -74,7 +75,9 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 
 	// Make sure we have enough space
 	if (pool->length + length > pool->size) {
-		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
+		// Strings might be longer than one block
+		int r = loc_stringpool_grow(pool,
+			(length > LOC_STRINGPOOL_BLOCK_SIZE) ? length : LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
 			return r;
 	}
@@ -170,7 +173,7 @@ size_t loc_stringpool_get_size(struct loc_stringpool* pool) {
 }
 
 static off_t loc_stringpool_find(struct loc_stringpool* pool, const char* s) {
-	if (!s || !*s) {
+	if (!s) {
 		errno = EINVAL;
 		return -1;
 	}
-- 
2.43.0


From 5295d79e70f1c7ae4c07c1ebb18220a6e3ccd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:40 +0000
Subject: [PATCH 011/103] fix: writer: Report any errors when writing a
 database

Errors when writing to the file were ignored and could result in an endless
loop. The function returned success when the header could not be written, the
database could not be flushed, or when it could not be signed.
---
 src/writer.c | 140 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 104 insertions(+), 36 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 52ed54f..a44c5ea 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -280,10 +280,31 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 	magic->version = version;
 }
 
-static void align_page_boundary(off_t* offset, FILE* f) {
+static int write_block(struct loc_writer* writer, const void* block, const size_t length,
+		off_t* offset, FILE* f) {
+	const size_t bytes_written = fwrite(block, 1, length, f);
+	*offset += bytes_written;
+
+	// Fail if we could not write everything
+	if (bytes_written < length) {
+		ERROR(writer->ctx, "Could not write to the database: %m\n");
+		return 1;
+	}
+
+	return 0;
+}
+
+static int align_page_boundary(struct loc_writer* writer, off_t* offset, FILE* f) {
+	int r;
+
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		r = write_block(writer, "", 1, offset, f);
+		if (r)
+			return r;
+	}
+
+	return 0;
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -296,6 +317,12 @@ static int loc_database_write_pool(struct loc_writer* writer,
 	size_t pool_length = loc_stringpool_write(writer->pool, f);
 	*offset += pool_length;
 
+	// Fail if we could not write everything
+	if (pool_length < loc_stringpool_get_size(writer->pool)) {
+		ERROR(writer->ctx, "Could not write the string pool: %m\n");
+		return 1;
+	}
+
 	DEBUG(writer->ctx, "Pool has a length of %zu bytes\n", pool_length);
 	header->pool_length = htobe32(pool_length);
 
@@ -323,20 +350,21 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 		// Convert AS into database format
 		loc_as_to_database_v1(as, writer->pool, &block);
 
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
-
 		// Unref AS
 		loc_as_unref(as);
+
+		// Write to disk
+		int r = write_block(writer, &block, sizeof(block), offset, f);
+		if (r)
+			return r;
+
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "AS section has a length of %zu bytes\n", block_length);
 	header->as_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(writer, offset, f);
 }
 
 struct node {
@@ -424,6 +452,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	// Add root
 	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
 	node = make_node(root);
+	loc_network_tree_node_unref(root);
 	if (!node)
 		return 1;
 
@@ -467,8 +496,10 @@ static int loc_database_write_networks(struct loc_writer* writer,
 			// Append network to be written out later
 			struct network* nw = make_network(network);
 			if (!nw) {
+				loc_network_unref(network);
 				free_node(node);
-				return 1;
+				r = 1;
+				goto ERROR;
 			}
 			TAILQ_INSERT_TAIL(&networks, nw, networks);
 
@@ -482,17 +513,20 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		DEBUG(writer->ctx, "Writing node %p (0 = %d, 1 = %d)\n",
 			node, node->index_zero, node->index_one);
 
-		*offset += fwrite(&db_node, 1, sizeof(db_node), f);
-		network_tree_length += sizeof(db_node);
-
 		free_node(node);
-	}
 
-	loc_network_tree_node_unref(root);
+		r = write_block(writer, &db_node, sizeof(db_node), offset, f);
+		if (r)
+			goto ERROR;
+
+		network_tree_length += sizeof(db_node);
+	}
 
 	header->network_tree_length = htobe32(network_tree_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(writer, offset, f);
+	if (r)
+		goto ERROR;
 
 	DEBUG(writer->ctx, "Networks data section starts at %jd bytes\n", (intmax_t)*offset);
 	header->network_data_offset = htobe32(*offset);
@@ -505,20 +539,38 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
+		free_network(nw);
 		if (r)
-			return r;
+			goto ERROR;
 
-		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
-		network_data_length += sizeof(db_network);
+		r = write_block(writer, &db_network, sizeof(db_network), offset, f);
+		if (r)
+			goto ERROR;
 
-		free_network(nw);
+		network_data_length += sizeof(db_network);
 	}
 
 	header->network_data_length = htobe32(network_data_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(writer, offset, f);
 
-	return 0;
+ERROR:
+	// Free anything that has not been written
+	while (!TAILQ_EMPTY(&nodes)) {
+		node = TAILQ_FIRST(&nodes);
+		TAILQ_REMOVE(&nodes, node, nodes);
+
+		free_node(node);
+	}
+
+	while (!TAILQ_EMPTY(&networks)) {
+		struct network* nw = TAILQ_FIRST(&networks);
+		TAILQ_REMOVE(&networks, nw, networks);
+
+		free_network(nw);
+	}
+
+	return r;
 }
 
 static int loc_database_write_countries(struct loc_writer* writer,
@@ -543,20 +595,21 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
 
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
-
 		// Unref country
 		loc_country_unref(country);
+
+		// Write to disk
+		int r = write_block(writer, &block, sizeof(block), offset, f);
+		if (r)
+			return r;
+
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
 	header->countries_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(writer, offset, f);
 }
 
 static int loc_writer_create_signature(struct loc_writer* writer,
@@ -576,6 +629,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -594,6 +648,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -603,11 +658,16 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	r = fseek(f, sizeof(*header), SEEK_CUR);
+	if (r) {
+		ERROR(writer->ctx, "Could not seek to position after header: %m\n");
+		goto END;
+	}
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
@@ -700,7 +760,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Write the magic
-	offset += fwrite(&magic, 1, sizeof(magic), f);
+	r = write_block(writer, &magic, sizeof(magic), &offset, f);
+	if (r)
+		return r;
 
 	// Skip the space we need to write the header later
 	r = fseek(f, sizeof(header), SEEK_CUR);
@@ -710,7 +772,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	}
 	offset += sizeof(header);
 
-	align_page_boundary(&offset, f);
+	r = align_page_boundary(writer, &offset, f);
+	if (r)
+		return r;
 
 	// Write all ASes
 	r = loc_database_write_as_section(writer, &header, &offset, f);
@@ -780,7 +844,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return 1;
 	}
 
 	// Seek back to the end
@@ -789,7 +853,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r) {
+		ERROR(writer->ctx, "Could not flush the database: %m\n");
+		return r;
+	}
 
-	return r;
+	return 0;
 }
-- 
2.43.0


From d8df53f6b5565ac9232fb71a9a32793186e910b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:56 +0000
Subject: [PATCH 012/103] fix: writer: Report any errors when rewinding the
 file

---
 src/writer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index a44c5ea..9f3efdc 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -620,13 +620,17 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Creating signature...\n");
 
 	// Read file from the beginning
-	rewind(f);
+	int r = fseek(f, 0, SEEK_SET);
+	if (r) {
+		ERROR(writer->ctx, "Could not rewind the file: %m\n");
+		return r;
+	}
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
 
 	// Initialise the context
-	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
+	r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
 		r = -1;
-- 
2.43.0


From 982ffa498b8b91b7f6842a41c34c08b52cdb5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 013/103] fix: writer: Do not change the networks of a writer
 when writing it

Networks that have been dropped or merged because they were redundant were
missing when the writer was extended and written again.
---
 src/writer.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 9f3efdc..14a7ee3 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -416,6 +416,12 @@ static void free_network(struct network* network) {
 	free(network);
 }
 
+static int copy_network(struct loc_network* network, void* data) {
+	struct loc_network_tree* tree = data;
+
+	return loc_network_tree_add_network(tree, network);
+}
+
 static int loc_database_write_networks(struct loc_writer* writer,
 		struct loc_database_header_v1* header, off_t* offset, FILE* f) {
 	int r;
@@ -444,17 +450,31 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	TAILQ_HEAD(network_t, network) networks;
 	TAILQ_INIT(&networks);
 
-	// Cleanup the tree before writing it
-	r = loc_network_tree_cleanup(writer->networks);
+	// Create a copy of the tree, because cleaning it up removes networks
+	// that might be needed if the writer is being written again later.
+	struct loc_network_tree* tree = NULL;
+
+	r = loc_network_tree_new(writer->ctx, &tree);
 	if (r)
 		return r;
 
+	r = loc_network_tree_walk(writer->networks, NULL, copy_network, tree);
+	if (r)
+		goto ERROR;
+
+	// Cleanup the tree before writing it
+	r = loc_network_tree_cleanup(tree);
+	if (r)
+		goto ERROR;
+
 	// Add root
-	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
+	struct loc_network_tree_node* root = loc_network_tree_get_root(tree);
 	node = make_node(root);
 	loc_network_tree_node_unref(root);
-	if (!node)
-		return 1;
+	if (!node) {
+		r = 1;
+		goto ERROR;
+	}
 
 	TAILQ_INSERT_TAIL(&nodes, node, nodes);
 
@@ -570,6 +590,8 @@ ERROR:
 		free_network(nw);
 	}
 
+	loc_network_tree_unref(tree);
+
 	return r;
 }
 
-- 
2.43.0


From e577a2eef52b32887976357b21ad845b2122a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:44 +0000
Subject: [PATCH 014/103] fix: country: Do not keep a pointer to a name that
 has been released

---
 src/country.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/country.c b/src/country.c
index 8152a89..2da51a8 100644
--- a/src/country.c
+++ b/src/country.c
@@ -123,8 +123,10 @@ LOC_EXPORT const char* loc_country_get_name(struct loc_country* country) {
 }
 
 LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* name) {
-	if (country->name)
+	if (country->name) {
 		free(country->name);
+		country->name = NULL;
+	}
 
 	if (name) {
 		country->name = strdup(name);
-- 
2.43.0


From 224189283b100ebc06f7dcd283e52d2728e75801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:49 +0000
Subject: [PATCH 015/103] fix: writer: Release networks that could not be added

---
 src/writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/writer.c b/src/writer.c
index 14a7ee3..73e16f6 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -257,7 +257,13 @@ LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_netw
 		return r;
 
 	// Add it to the local tree
-	return loc_network_tree_add_network(writer->networks, *network);
+	r = loc_network_tree_add_network(writer->networks, *network);
+	if (r) {
+		loc_network_unref(*network);
+		*network = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_country** country, const char* country_code) {
-- 
2.43.0


From bc919bc34e85c779bdbe4bd8a0b080322f64be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 016/103] fix: database: Refuse files that are shorter than the
 header

The subtraction wrapped around if the file is shorter than the object
---
 src/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 9081879..fd631ec 100644
--- a/src/database.c
+++ b/src/database.c
@@ -160,7 +160,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= (size_t)db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
-- 
2.43.0


From b5446ead049956b4c63d00bcc0e505ca758f075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 017/103] fix: database: Refuse files with sections outside of
 the file

---
 src/database.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/database.c b/src/database.c
index fd631ec..b8053ea 100644
--- a/src/database.c
+++ b/src/database.c
@@ -283,6 +283,10 @@ static int loc_database_mmap(struct loc_database* db) {
 */
 static int loc_database_map_objects(struct loc_database* db, struct loc_database_objects* objects,
 		const size_t size, const off_t offset, const size_t length) {
+	// Check if the objects are part of the mapped area
+	if (!__loc_database_check_boundaries(db, db->data + offset, length))
+		return 1;
+
 	// Store parameters
 	objects->data   = db->data + offset;
 	objects->length = length;
-- 
2.43.0


From 2dcc1c2c1501d6b2f47fea57f2463af699c2ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 018/103] fix: stringpool: Refuse pools whose last string is
 not terminated

---
 src/stringpool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stringpool.c b/src/stringpool.c
index c983683..eaa4a1d 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -121,6 +121,13 @@ int loc_stringpool_open(struct loc_ctx* ctx, struct loc_stringpool** pool,
 		const char* data, const size_t length) {
 	struct loc_stringpool* p = NULL;
 
+	// The last string must be terminated
+	if (length && data[length - 1]) {
+		ERROR(ctx, "The string pool is not terminated\n");
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Allocate a new stringpool
 	int r = loc_stringpool_new(ctx, &p);
 	if (r)
-- 
2.43.0


From 19b5e8804bf46f321cbbc2e466b09a59e11453af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 019/103] fix: database: Do not search through empty trees

---
 src/database.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/database.c b/src/database.c
index b8053ea..934d563 100644
--- a/src/database.c
+++ b/src/database.c
@@ -955,6 +955,10 @@ LOC_EXPORT int loc_database_lookup(struct loc_database* db,
 
 	*network = NULL;
 
+	// There is nothing to find in an empty tree
+	if (!db->network_node_objects.count)
+		return 0;
+
 #ifdef ENABLE_DEBUG
 	// Save start time
 	clock_t start = clock();
@@ -1127,13 +1131,15 @@ LOC_EXPORT int loc_database_enumerator_new(struct loc_database_enumerator** enum
 	// Flatten output?
 	e->flatten = (flags & LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
 
-	// Initialise graph search
-	e->network_stack_depth = 1;
-	e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
-	if (!e->networks_visited) {
-		ERROR(db->ctx, "Could not allocated visited networks: %m\n");
-		r = 1;
-		goto ERROR;
+	// Initialise graph search (unless the tree is empty)
+	if (db->network_node_objects.count) {
+		e->network_stack_depth = 1;
+		e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
+		if (!e->networks_visited) {
+			ERROR(db->ctx, "Could not allocated visited networks: %m\n");
+			r = 1;
+			goto ERROR;
+		}
 	}
 
 	// Allocate stack
-- 
2.43.0


From 6afd4ad92f13b0d86ccce1eabbb40050cd4275c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:14 +0000
Subject: [PATCH 020/103] fix: network: Release networks that could not be read
 from the database

---
 src/network.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index 38df4cc..27e72af 100644
--- a/src/network.c
+++ b/src/network.c
@@ -690,7 +690,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto FAIL;
 	}
 
 	// Import ASN
@@ -698,7 +698,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto FAIL;
 	}
 
 	// Import flags
@@ -706,10 +706,16 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto FAIL;
 	}
 
 	return 0;
+
+FAIL:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From 84bb827d4b8ab2257308e1f7832841d2ad2df65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 021/103] fix: enumerator: Do not crash if a subnet cannot be
 read

This also releases the network that is not being returned
---
 src/database.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/database.c b/src/database.c
index 934d563..78bf557 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1464,19 +1464,15 @@ static int __loc_database_enumerator_next_network_flattened(
 	if (!enumerator->subnets) {
 		r = loc_network_list_new(enumerator->ctx, &enumerator->subnets);
 		if (r)
-			return r;
+			goto ERROR;
 	}
 
 	// Search all subnets from the database
 	while (1) {
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
-		if (r) {
-			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
-		}
+		if (r)
+			goto ERROR;
 
 		// End if we did not receive another subnet
 		if (!subnet)
@@ -1487,9 +1483,7 @@ static int __loc_database_enumerator_next_network_flattened(
 			r = loc_network_list_push(enumerator->subnets, subnet);
 			if (r) {
 				loc_network_unref(subnet);
-				loc_network_list_clear(enumerator->subnets);
-
-				return r;
+				goto ERROR;
 			}
 
 			loc_network_unref(subnet);
@@ -1500,9 +1494,7 @@ static int __loc_database_enumerator_next_network_flattened(
 		r = loc_network_list_push(enumerator->stack, subnet);
 		if (r) {
 			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
+			goto ERROR;
 		}
 
 		loc_network_unref(subnet);
@@ -1523,26 +1515,22 @@ static int __loc_database_enumerator_next_network_flattened(
 	// without the subnets.
 	struct loc_network_list* excluded = loc_network_exclude_list(*network, enumerator->subnets);
 	if (!excluded) {
-		loc_network_list_clear(enumerator->subnets);
-		return 1;
+		r = 1;
+		goto ERROR;
 	}
 
 	// Merge subnets onto the stack
 	r = loc_network_list_merge(enumerator->stack, enumerator->subnets);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	// Push excluded list onto the stack
 	r = loc_network_list_merge(enumerator->stack, excluded);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	loc_network_list_clear(enumerator->subnets);
@@ -1552,6 +1540,16 @@ static int __loc_database_enumerator_next_network_flattened(
 	loc_network_unref(*network);
 
 	return __loc_database_enumerator_next_network_flattened(enumerator, network);
+
+ERROR:
+	if (enumerator->subnets)
+		loc_network_list_clear(enumerator->subnets);
+
+	// Release the network because it will not be returned
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 /*
-- 
2.43.0


From bb8e28a673e517bf54e699d57473e385d4a9ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 022/103] fix: database: Try the second signature if the first
 one is malformed

---
 src/database.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/database.c b/src/database.c
index 78bf557..0ac3cc2 100644
--- a/src/database.c
+++ b/src/database.c
@@ -669,10 +669,8 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 			DEBUG(db->ctx, "The first signature is valid\n");
 			sig1_valid = 1;
 		} else {
-			ERROR(db->ctx, "Error verifying the first signature: %s\n",
+			DEBUG(db->ctx, "Error verifying the first signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
@@ -689,10 +687,8 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 			DEBUG(db->ctx, "The second signature is valid\n");
 			sig2_valid = 1;
 		} else {
-			ERROR(db->ctx, "Error verifying the second signature: %s\n",
+			DEBUG(db->ctx, "Error verifying the second signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
-- 
2.43.0


From 054aaa05de1a8ef40ea25af2d35f4784c604fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 023/103] fix: database: Do not loop forever if the file cannot
 be read when being verified

---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index 0ac3cc2..404164a 100644
--- a/src/database.c
+++ b/src/database.c
@@ -642,6 +642,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Error reading from file: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
-- 
2.43.0


From 3d2e5e6d0a703885d12741c92bb61ec10345e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 024/103] fix: database: Handle errors correctly when cloning
 the file handle

---
 src/database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 404164a..5346a1d 100644
--- a/src/database.c
+++ b/src/database.c
@@ -415,7 +415,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 
 	// Clone file descriptor
 	fd = dup(fd);
-	if (!fd) {
+	if (fd < 0) {
 		ERROR(db->ctx, "Could not duplicate file descriptor\n");
 		return 1;
 	}
@@ -424,6 +424,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 	db->f = fdopen(fd, "r");
 	if (!db->f) {
 		ERROR(db->ctx, "Could not re-open database file\n");
+		close(fd);
 		return 1;
 	}
 
-- 
2.43.0


From 5b44215e3f2b19a4b74344f9c9bde78cc2feb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:19 +0000
Subject: [PATCH 025/103] fix: address: Refuse strings with an invalid prefix
 or that are too long

The prefix was parsed with strtol() which accepts empty strings, signs,
leading white space and anything that follows the number, and was not
looked at when only the address was wanted. Strings longer than the buffer
were cut off, so that the prefix of the longest addresses was wrong.
---
 src/address.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..638a0d7 100644
--- a/src/address.c
+++ b/src/address.c
@@ -76,10 +76,16 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 	}
 
 	// Copy the string into the buffer
-	r = snprintf(buffer, sizeof(buffer) - 1, "%s", string);
+	r = snprintf(buffer, sizeof(buffer), "%s", string);
 	if (r < 0)
 		return 1;
 
+	// No valid string can be longer than the buffer
+	if ((size_t)r >= sizeof(buffer)) {
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Find /
 	char* p = strchr(buffer, '/');
 	if (p) {
@@ -136,26 +142,30 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 		return 1;
 	}
 
-	// Did the user request a prefix?
-	if (prefix) {
-		// Set the prefix to the default value
-		const unsigned int max_prefix = loc_address_family_bit_length(family);
+	// If the string doesn't contain a prefix, it will be set to the maximum
+	const unsigned int max_prefix = loc_address_family_bit_length(family);
+	unsigned long value = max_prefix;
 
-		// Parse the actual string
-		if (p) {
-			*prefix = strtol(p, NULL, 10);
+	// Parse the actual prefix
+	if (p) {
+		// The prefix must only consist of digits
+		if (!*p || p[strspn(p, "0123456789")]) {
+			errno = EINVAL;
+			return 1;
+		}
 
-			// Check if prefix is within bounds
-			if (*prefix > max_prefix) {
-				errno = EINVAL;
-				return 1;
-			}
+		value = strtoul(p, NULL, 10);
 
-		// If the string didn't contain a prefix, we set the maximum
-		} else {
-			*prefix = max_prefix;
+		// Check if prefix is within bounds
+		if (value > max_prefix) {
+			errno = EINVAL;
+			return 1;
 		}
 	}
 
+	// Did the user request a prefix?
+	if (prefix)
+		*prefix = value;
+
 	return 0;
 }
-- 
2.43.0


From c5a5dbd90ff22903ce7bb2e303ac4ddb27abb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:22 +0000
Subject: [PATCH 026/103] fix: country: Do not take longer strings for a
 special country code

---
 src/country.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/country.c b/src/country.c
index 2da51a8..56b021a 100644
--- a/src/country.c
+++ b/src/country.c
@@ -228,7 +228,7 @@ LOC_EXPORT int loc_country_special_code_to_flag(const char* cc) {
 	// Return flags for any known special country
 	for (const struct loc_special_country* country = loc_special_countries;
 			country->flags; country++) {
-		if (strncmp(country->code, cc, 2) == 0)
+		if (strcmp(country->code, cc) == 0)
 			return country->flags;
 	}
 
-- 
2.43.0


From 6246630ea1f261f92fc388d2e83246c33fc215f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:45 +0000
Subject: [PATCH 027/103] fix: network: Do not match any flags if the country
 code is empty

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 27e72af..55585de 100644
--- a/src/network.c
+++ b/src/network.c
@@ -223,7 +223,7 @@ LOC_EXPORT int loc_network_matches_country_code(struct loc_network* network, con
 	const int flag = loc_country_special_code_to_flag(country_code);
 
 	// If we found a flag, we will return whether it is set or not
-	if (flag)
+	if (flag > 0)
 		return loc_network_has_flag(network, flag);
 
 	// Check country code
-- 
2.43.0


From d9a58c6e20ecc0abcbb6fb5ddfc98df73bf31fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:06 +0000
Subject: [PATCH 028/103] fix: network: Remove all of the country code when it
 is set to nothing

The second letter remained and was then written to the database.
---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 55585de..0db802b 100644
--- a/src/network.c
+++ b/src/network.c
@@ -205,7 +205,7 @@ LOC_EXPORT const char* loc_network_get_country_code(struct loc_network* network)
 LOC_EXPORT int loc_network_set_country_code(struct loc_network* network, const char* country_code) {
 	// Set empty country code
 	if (!country_code || !*country_code) {
-		*network->country_code = '\0';
+		memset(network->country_code, 0, sizeof(network->country_code));
 		return 0;
 	}
 
-- 
2.43.0


From 80d6ce8f6a8d79d4906586e12b268974c17dca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 029/103] fix: network: Do not leak memory when composing IPv6
 reverse pointers

---
 src/network.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/network.c b/src/network.c
index 0db802b..e064ff2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -720,6 +720,7 @@ FAIL:
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* next = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -736,26 +737,31 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 	// Initialize the buffer
 	r = asprintf(&buffer, "%s", suffix);
 	if (r < 0)
-		goto ERROR;
+		return NULL;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		r = asprintf(&next, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = next;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		r = asprintf(&next, "*.%s", buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = next;
 	}
 
 	return buffer;
 
 ERROR:
-	if (buffer)
-		free(buffer);
+	free(buffer);
 
 	return NULL;
 }
-- 
2.43.0


From 0d8a2673b120afec8c0696094c944eff3bcf19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:07 +0000
Subject: [PATCH 030/103] fix: database: Release the previous search string of
 an enumerator

---
 src/database.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 5346a1d..259fb35 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1185,7 +1185,15 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
-	enumerator->string = strdup(string);
+	char* s = strdup(string);
+	if (!s)
+		return 1;
+
+	// Replace any previously set string
+	if (enumerator->string)
+		free(enumerator->string);
+
+	enumerator->string = s;
 
 	// Make the string lowercase
 	for (char *p = enumerator->string; *p; p++)
-- 
2.43.0


From 3d2b8dea9d8cff5c95b56f82e80079e15779eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:29 +0000
Subject: [PATCH 031/103] fix: resolv: Accept names of any length in DNS
 replies

---
 src/resolv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..8a7a2dd 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -72,7 +72,7 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     unsigned char* payload = answer + sizeof(HEADER);
 
     // Expand domain name
-    char host[128];
+    char host[NS_MAXDNAME];
     if ((len = dn_expand(answer, end, payload, host, sizeof(host))) < 0) {
         ERROR(ctx, "dn_expand() failed\n");
         return -1;
-- 
2.43.0


From 0614776de5321e38e1eb3cc67fb86aa3f4eadf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:57 +0000
Subject: [PATCH 032/103] fix: resolv: Do not write beyond the end of the DNS
 reply

---
 src/resolv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 8a7a2dd..e1d376e 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -56,13 +56,14 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     char domain[64];
     snprintf(domain, 63, LOC_DATABASE_DOMAIN, version);
 
-    unsigned char answer[PACKETSZ];
+    // Leave space to terminate a string at the very end of the reply
+    unsigned char answer[PACKETSZ + 1];
     int len;
 
     DEBUG(ctx, "Querying %s\n", domain);
 
     // Send a query
-    if ((len = res_query(domain, C_IN, T_TXT, answer, sizeof(answer))) < 0 || len > PACKETSZ) {
+    if ((len = res_query(domain, C_IN, T_TXT, answer, PACKETSZ)) < 0 || len > PACKETSZ) {
         ERROR(ctx, "Could not query %s: \n", domain);
 
         return -1;
-- 
2.43.0


From c9f22aacf9104f1071fa57c6b14a33c08ba588ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 033/103] fix: python: Accept all 32 bit AS numbers and refuse
 any others

---
 src/python/as.c       | 29 ++++++++++++++++++++++++-----
 src/python/as.h       |  1 +
 src/python/database.c |  8 ++++++--
 src/python/writer.c   |  2 +-
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 2f4b26f..339ea80 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -22,6 +22,25 @@
 #include "locationmodule.h"
 #include "as.h"
 
+/*
+	Converts any Python object into a 32 bit AS number
+*/
+int PyASN_Converter(PyObject* object, void* number) {
+	long long int asn = PyLong_AsLongLong(object);
+	if (asn == -1 && PyErr_Occurred())
+		return 0;
+
+	// Check if the ASN is within the valid range
+	if (asn < 0 || asn > UINT32_MAX) {
+		PyErr_Format(PyExc_ValueError, "Invalid ASN %lld", asn);
+		return 0;
+	}
+
+	*(uint32_t*)number = asn;
+
+	return 1;
+}
+
 PyObject* new_as(PyTypeObject* type, struct loc_as* as) {
 	ASObject* self = (ASObject*)type->tp_alloc(type, 0);
 	if (self) {
@@ -47,7 +66,7 @@ static void AS_dealloc(ASObject* self) {
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return -1;
 
 	// Create the AS object
@@ -63,9 +82,9 @@ static PyObject* AS_repr(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("<AS %d (%s)>", number, name);
+		return PyUnicode_FromFormat("<AS %u (%s)>", number, name);
 
-	return PyUnicode_FromFormat("<AS %d>", number);
+	return PyUnicode_FromFormat("<AS %u>", number);
 }
 
 static PyObject* AS_str(ASObject* self) {
@@ -73,9 +92,9 @@ static PyObject* AS_str(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("AS%d - %s", number, name);
+		return PyUnicode_FromFormat("AS%u - %s", number, name);
 
-	return PyUnicode_FromFormat("AS%d", number);
+	return PyUnicode_FromFormat("AS%u", number);
 }
 
 static PyObject* AS_get_number(ASObject* self) {
diff --git a/src/python/as.h b/src/python/as.h
index d7fe36a..115dfb5 100644
--- a/src/python/as.h
+++ b/src/python/as.h
@@ -29,6 +29,7 @@ typedef struct {
 
 extern PyTypeObject ASType;
 
+int PyASN_Converter(PyObject* object, void* number);
 PyObject* new_as(PyTypeObject* type, struct loc_as* as);
 
 #endif /* PYTHON_LOCATION_AS_H */
diff --git a/src/python/database.c b/src/python/database.c
index f84b003..2e020b3 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -143,7 +143,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return NULL;
 
 	// Try to retrieve the AS
@@ -393,7 +393,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				return NULL;
 			}
 
-			unsigned long number = PyLong_AsLong(item);
+			uint32_t number = 0;
+			if (!PyASN_Converter(item, &number)) {
+				loc_as_list_unref(asns);
+				return NULL;
+			}
 
 			struct loc_as* as;
 			r = loc_as_new(loc_ctx, &as, number);
diff --git a/src/python/writer.c b/src/python/writer.c
index 1c06384..6d05990 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -149,7 +149,7 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 	struct loc_as* as;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return NULL;
 
 	// Create AS object
-- 
2.43.0


From d5bbc6fbd6e85e6be9de77735c85b3e6b47b797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:12 +0000
Subject: [PATCH 034/103] fix: perl: Do not truncate AS numbers

---
 src/perl/Location.xs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index be6df14..f7f3d70 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -305,11 +305,15 @@ get_continent_code(db, ccode)
 SV*
 get_as_name(db, as_number)
 	struct loc_database* db;
-	unsigned int as_number;
+	NV as_number;
 
 	CODE:
 		RETVAL = &PL_sv_undef;
 
+		// There are only 32 bit AS numbers
+		if (as_number < 0 || as_number > UINT32_MAX)
+			XSRETURN_UNDEF;
+
 		// Lookup AS.
 		struct loc_as *as;
 		int err = loc_database_get_as(db, &as, as_number);
-- 
2.43.0


From 2b564bd71331b23f980c18cfa9002b431a8cc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:25 +0000
Subject: [PATCH 035/103] fix: lua: Refuse invalid AS numbers

---
 src/lua/as.c       | 14 ++++++++++++--
 src/lua/as.h       |  1 +
 src/lua/database.c |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 558fcbf..01a4ec3 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -40,6 +40,16 @@ static AS* luaL_checkas(lua_State* L, int i) {
 	return (AS*)userdata;
 }
 
+uint32_t luaL_checkasn(lua_State* L, int i) {
+	const lua_Number number = luaL_checknumber(L, i);
+
+	// Throw an error if this isn't a 32 bit integer
+	luaL_argcheck(L, number >= 0 && number <= UINT32_MAX && number == (uint32_t)number,
+		i, "AS number expected");
+
+	return number;
+}
+
 int create_as(lua_State* L, struct loc_as* as) {
 	// Allocate a new object
 	AS* self = (AS*)lua_newuserdata(L, sizeof(*self));
@@ -55,11 +65,11 @@ int create_as(lua_State* L, struct loc_as* as) {
 
 static int AS_new(lua_State* L) {
 	struct loc_as* as = NULL;
-	unsigned int n = 0;
+	uint32_t n = 0;
 	int r;
 
 	// Fetch the number
-	n = luaL_checknumber(L, 1);
+	n = luaL_checkasn(L, 1);
 
 	// Create the AS
 	r = loc_as_new(ctx, &as, n);
diff --git a/src/lua/as.h b/src/lua/as.h
index 0ea34f9..d57028d 100644
--- a/src/lua/as.h
+++ b/src/lua/as.h
@@ -24,6 +24,7 @@
 
 int register_as(lua_State* L);
 
+uint32_t luaL_checkasn(lua_State* L, int i);
 int create_as(lua_State* L, struct loc_as* as);
 
 #endif /* LUA_LOCATION_AS_H */
diff --git a/src/lua/database.c b/src/lua/database.c
index dfdb705..d65b277 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -139,7 +139,7 @@ static int Database_get_as(lua_State* L) {
 	Database* self = luaL_checkdatabase(L, 1);
 
 	// Fetch number
-	uint32_t asn = luaL_checknumber(L, 2);
+	uint32_t asn = luaL_checkasn(L, 2);
 
 	// Fetch the AS
 	r = loc_database_get_as(self->db, &as, asn);
-- 
2.43.0


From dc1920ef7617fcb03d63e9008470399f84023313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:49 +0000
Subject: [PATCH 036/103] fix: lua: Format AS numbers as unsigned integers

---
 src/lua/as.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 01a4ec3..95c475d 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -15,6 +15,7 @@
 */
 
 #include <errno.h>
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -100,12 +101,16 @@ static int AS_tostring(lua_State* L) {
 
 	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
+	char buffer[16];
+
+	// Lua cannot format unsigned integers
+	snprintf(buffer, sizeof(buffer), "%u", number);
 
 	// Return string
 	if (name)
-		lua_pushfstring(L, "AS%d - %s", number, name);
+		lua_pushfstring(L, "AS%s - %s", buffer, name);
 	else
-		lua_pushfstring(L, "AS%d", number);
+		lua_pushfstring(L, "AS%s", buffer);
 
 	return 1;
 }
-- 
2.43.0


From b63c911fea0b3b288d98f6f82f4e6311ca2ef8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:07 +0000
Subject: [PATCH 037/103] fix: lua: Do not crash when a country could not be
 found

---
 src/lua/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua/database.c b/src/lua/database.c
index d65b277..5ff56e1 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -166,7 +166,7 @@ static int Database_get_country(lua_State* L) {
 
 	// Fetch the country
 	r = loc_database_get_country(self->db, &country, code);
-	if (r) {
+	if (r || !country) {
 		lua_pushnil(L);
 		return 1;
 	}
-- 
2.43.0


From 8306b3dcd7bc2a72021b24fdc0f7115ab3fe1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:10 +0000
Subject: [PATCH 038/103] fix: perl: Do not crash when there is no country or
 no name

---
 src/perl/Location.xs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index f7f3d70..67ce9ed 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -267,12 +267,13 @@ get_country_name(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
-			RETVAL = newSVpv(country_name, strlen(country_name));
+			if (country_name)
+				RETVAL = newSVpv(country_name, strlen(country_name));
 
 			loc_country_unref(country);
 		}
@@ -289,12 +290,13 @@ get_continent_code(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
-			RETVAL = newSVpv(continent_code, strlen(continent_code));
+			if (continent_code)
+				RETVAL = newSVpv(continent_code, strlen(continent_code));
 
 			loc_country_unref(country);
 		}
@@ -320,8 +322,8 @@ get_as_name(db, as_number)
 		if(!err) {
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
-
-			RETVAL = newSVpv(as_name, strlen(as_name));
+			if (as_name)
+				RETVAL = newSVpv(as_name, strlen(as_name));
 
 			loc_as_unref(as);
 		}
-- 
2.43.0


From 9343940eed87ead687b85bf161d8c3f3c6413bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:52 +0000
Subject: [PATCH 039/103] fix: python: Refuse to set attributes to anything but
 valid strings

---
 src/python/as.c             |  6 ++++--
 src/python/country.c        | 12 ++++++++----
 src/python/locationmodule.c | 25 +++++++++++++++++++++++++
 src/python/locationmodule.h |  2 ++
 src/python/network.c        | 11 ++++++++++-
 src/python/writer.c         | 18 ++++++++++++------
 6 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 339ea80..ca9b80b 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -110,12 +110,14 @@ static PyObject* AS_get_name(ASObject* self) {
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = PyString_AsUTF8(value);
+	if (!name)
+		return -1;
 
 	int r = loc_as_set_name(self->as, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/country.c b/src/python/country.c
index 7114846..53e093a 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -89,12 +89,14 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = PyString_AsUTF8(value);
+	if (!name)
+		return -1;
 
 	int r = loc_country_set_name(self->country, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -110,12 +112,14 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
-	const char* code = PyUnicode_AsUTF8(value);
+	const char* code = PyString_AsUTF8(value);
+	if (!code)
+		return -1;
 
 	int r = loc_country_set_continent_code(self->country, code);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set continent code: %s", code);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/locationmodule.c b/src/python/locationmodule.c
index 45c7bd8..7cb1a6c 100644
--- a/src/python/locationmodule.c
+++ b/src/python/locationmodule.c
@@ -30,6 +30,31 @@
 /* Declare global context */
 struct loc_ctx* loc_ctx;
 
+/*
+	Returns the value of any string, or raises an exception if an attribute is
+	about to be deleted, or set to something that is not a string
+*/
+const char* PyString_AsUTF8(PyObject* value) {
+	Py_ssize_t length = 0;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Attribute cannot be deleted");
+		return NULL;
+	}
+
+	const char* string = PyUnicode_AsUTF8AndSize(value, &length);
+	if (!string)
+		return NULL;
+
+	// The library cannot store any NUL characters
+	if (strlen(string) != (size_t)length) {
+		PyErr_SetString(PyExc_ValueError, "Embedded null character");
+		return NULL;
+	}
+
+	return string;
+}
+
 PyMODINIT_FUNC PyInit__location(void);
 
 static void location_free(void) {
diff --git a/src/python/locationmodule.h b/src/python/locationmodule.h
index e267986..2c13fc4 100644
--- a/src/python/locationmodule.h
+++ b/src/python/locationmodule.h
@@ -21,4 +21,6 @@
 
 extern struct loc_ctx* loc_ctx;
 
+const char* PyString_AsUTF8(PyObject* value);
+
 #endif /* PYTHON_LOCATION_MODULE_H */
diff --git a/src/python/network.c b/src/python/network.c
index 4bae918..fbd6fd2 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -102,7 +102,9 @@ static PyObject* Network_get_country_code(NetworkObject* self) {
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
-	const char* country_code = PyUnicode_AsUTF8(value);
+	const char* country_code = PyString_AsUTF8(value);
+	if (!country_code)
+		return -1;
 
 	int r = loc_network_set_country_code(self->network, country_code);
 	if (r) {
@@ -126,7 +128,14 @@ static PyObject* Network_get_asn(NetworkObject* self) {
 }
 
 static int Network_set_asn(NetworkObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Attribute cannot be deleted");
+		return -1;
+	}
+
 	long int asn = PyLong_AsLong(value);
+	if (asn == -1 && PyErr_Occurred())
+		return -1;
 
 	// Check if the ASN is within the valid range
 	if (asn <= 0) {
diff --git a/src/python/writer.c b/src/python/writer.c
index 6d05990..45814c8 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -98,12 +98,14 @@ static PyObject* Writer_get_vendor(WriterObject* self) {
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
-	const char* vendor = PyUnicode_AsUTF8(value);
+	const char* vendor = PyString_AsUTF8(value);
+	if (!vendor)
+		return -1;
 
 	int r = loc_writer_set_vendor(self->writer, vendor);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set vendor: %s", vendor);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -116,12 +118,14 @@ static PyObject* Writer_get_description(WriterObject* self) {
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
-	const char* description = PyUnicode_AsUTF8(value);
+	const char* description = PyString_AsUTF8(value);
+	if (!description)
+		return -1;
 
 	int r = loc_writer_set_description(self->writer, description);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set description: %s", description);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -134,12 +138,14 @@ static PyObject* Writer_get_license(WriterObject* self) {
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
-	const char* license = PyUnicode_AsUTF8(value);
+	const char* license = PyString_AsUTF8(value);
+	if (!license)
+		return -1;
 
 	int r = loc_writer_set_license(self->writer, license);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set license: %s", license);
-		return r;
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 0bcebab4b8ca8788b624f14ac05f61c7b96cf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:56 +0000
Subject: [PATCH 040/103] fix: python: Raise ValueError when looking up invalid
 addresses

---
 src/python/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index 2e020b3..657f3f0 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -213,9 +213,11 @@ static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
 		switch (errno) {
 			case EINVAL:
 				PyErr_Format(PyExc_ValueError, "Invalid IP address: %s", address);
+				break;
 
 			default:
 				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From 6ef886e71ce4487de636b063962793d8b01b6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:00 +0000
Subject: [PATCH 041/103] fix: python: Do not crash when an AS has no name

---
 src/python/as.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index ca9b80b..b81e6a7 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -106,6 +106,10 @@ static PyObject* AS_get_number(ASObject* self) {
 static PyObject* AS_get_name(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
+	// Return None if no name has been set
+	if (!name)
+		Py_RETURN_NONE;
+
 	return PyUnicode_FromString(name);
 }
 
-- 
2.43.0


From e9182e4b878d05ff722268c0e4b679a851b21e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:04 +0000
Subject: [PATCH 042/103] fix: python: Do not crash when adding an invalid
 country

---
 src/python/writer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 45814c8..9f18cd8 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -181,12 +181,15 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	if (r) {
 		switch (r) {
 			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
+				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
 			default:
-				return NULL;
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
+
+		return NULL;
 	}
 
 	PyObject* obj = new_country(&CountryType, country);
-- 
2.43.0


From b724bb88f682bf9947a962efa1e8f6b313e370fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:08 +0000
Subject: [PATCH 043/103] fix: python: Do not crash when nothing remains after
 excluding a network

---
 src/python/network.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/network.c b/src/python/network.c
index fbd6fd2..731c79c 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -196,7 +196,8 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 
 	// Convert to Python objects
 	PyObject* obj = PyList_FromNetworkList(list);
-	loc_network_list_unref(list);
+	if (list)
+		loc_network_list_unref(list);
 
 	return obj;
 }
-- 
2.43.0


From b7b9d8f61e1023c7fdd3dd4a0ff6898b62ef2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:12 +0000
Subject: [PATCH 044/103] fix: python: Compare objects by value when testing
 for inequality

---
 src/python/as.c      | 6 ++++++
 src/python/country.c | 6 ++++++
 src/python/network.c | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index b81e6a7..f64df2a 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -145,6 +145,12 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
diff --git a/src/python/country.c b/src/python/country.c
index 53e093a..af78a86 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -143,6 +143,12 @@ static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int o
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
diff --git a/src/python/network.c b/src/python/network.c
index 731c79c..3702942 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -276,6 +276,12 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
-- 
2.43.0


From 324154345782bbeaa30c444fdceb7a478fccdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:20 +0000
Subject: [PATCH 045/103] fix: python: Raise ValueError for invalid country
 codes

---
 src/python/country.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/country.c b/src/python/country.c
index af78a86..bc56387 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -52,8 +52,10 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the country object
 	int r = loc_country_new(loc_ctx, &self->country, country_code);
-	if (r)
+	if (r) {
+		PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 		return -1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From f9428b1d22c8c9b302c51ef7aff51c7c02b2a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:08 +0000
Subject: [PATCH 046/103] fix: export: Search for networks with flags when
 exporting special country codes

---
 src/python/location/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1d147b1..502c731 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -261,9 +261,15 @@ class Exporter(object):
 				country_code for country_code in countries if not country_code in FLAGS.values()
 			]
 
+			# Search for the flags of any special country codes
+			flags = 0
+			for flag in FLAGS:
+				if FLAGS[flag] in countries:
+					flags |= flag
+
 			# Get all networks that match the family
 			networks = self.db.search_networks(family=family,
-				country_codes=country_codes, asns=asns, flatten=True)
+				country_codes=country_codes, asns=asns, flags=flags, flatten=True)
 
 			# Walk through all networks
 			for network in networks:
-- 
2.43.0


From b824fbaba0e8f3f003c7793d44e28cf9e3754184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:27 +0000
Subject: [PATCH 047/103] fix: export: Make the xt_geoip format usable again

---
 src/python/location/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 502c731..9d251a7 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -218,8 +218,7 @@ class XTGeoIPOutputWriter(OutputWriter):
 	"""
 	mode = "wb"
 
-	@property
-	def tag(self):
+	def _make_tag(self):
 		return self.name
 
 	@property
-- 
2.43.0


From 4cf65f167f81cf8ec8671fdb15d4a9610b50b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:56 +0000
Subject: [PATCH 048/103] fix: downloader: Make sure that the database has been
 written to disk before it is installed

---
 src/python/location/downloader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 3dffbc7..ac7f60c 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -146,6 +146,7 @@ class Downloader(object):
 
 					# Write all data to disk
 					t.flush()
+					os.fsync(t.fileno())
 
 				# Catch decompression errors
 				except lzma.LZMAError as e:
-- 
2.43.0


From 1cfc82730a5767d20a349bd777b4ef0029283c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 049/103] fix: downloader: Always remove the temporary file
 after unsuccessful downloads

---
 src/python/location/downloader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index ac7f60c..d50ebc1 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -16,6 +16,7 @@
 #                                                                             #
 ###############################################################################
 
+import contextlib
 import gzip
 import logging
 import lzma
@@ -123,7 +124,10 @@ class Downloader(object):
 			)
 
 		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
-		with t:
+		with t, contextlib.ExitStack() as cleanup:
+			# Delete the temporary file after unsuccessful downloads
+			cleanup.callback(os.unlink, t.name)
+
 			# Try all mirrors
 			for mirror in self.mirrors:
 				# Prepare HTTP request
@@ -178,11 +182,9 @@ class Downloader(object):
 					os.chmod(t.name, stat.S_IRUSR|stat.S_IRGRP|stat.S_IROTH)
 
 					# Return temporary file
+					cleanup.pop_all()
 					return t
 
-		# Delete the temporary file after unsuccessful downloads
-		os.unlink(t.name)
-
 		raise FileNotFoundError(url)
 
 	def _check_database(self, f, public_key, timestamp=None):
-- 
2.43.0


From dbe88ff29b3ec0897e8d1e4b69ccba3aaee0ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:18 +0000
Subject: [PATCH 050/103] fix: downloader: Try the next mirror after any
 download errors

---
 src/python/location/downloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index d50ebc1..b74d465 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -18,6 +18,7 @@
 
 import contextlib
 import gzip
+import http.client
 import logging
 import lzma
 import os
@@ -153,7 +154,7 @@ class Downloader(object):
 					os.fsync(t.fileno())
 
 				# Catch decompression errors
-				except lzma.LZMAError as e:
+				except (lzma.LZMAError, EOFError) as e:
 					log.warning("Could not decompress downloaded file: %s" % e)
 					continue
 
@@ -169,6 +170,11 @@ class Downloader(object):
 					# Throw away any downloaded content and try again
 					t.truncate()
 
+				# Catch any other errors when talking to the mirror
+				except (OSError, http.client.HTTPException) as e:
+					log.warning("Could not download from %s: %s" % (mirror, e))
+					continue
+
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
-- 
2.43.0


From af4c47c35a1da811f80ebfa97d237944c921240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:20 +0000
Subject: [PATCH 051/103] fix: downloader: Throw away all data of failed
 mirrors

---
 src/python/location/downloader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index b74d465..9dca48c 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -131,6 +131,10 @@ class Downloader(object):
 
 			# Try all mirrors
 			for mirror in self.mirrors:
+				# Throw away anything that we have received from any other mirror
+				t.seek(0)
+				t.truncate()
+
 				# Prepare HTTP request
 				req = self._make_request(url, baseurl=mirror, headers=headers)
 
@@ -167,9 +171,6 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
-					# Throw away any downloaded content and try again
-					t.truncate()
-
 				# Catch any other errors when talking to the mirror
 				except (OSError, http.client.HTTPException) as e:
 					log.warning("Could not download from %s: %s" % (mirror, e))
@@ -180,8 +181,6 @@ class Downloader(object):
 					if not self._check_database(t, public_key, timestamp):
 						log.warning("Downloaded database is outdated. Trying next mirror...")
 
-						# Throw away the data and try again
-						t.truncate()
 						continue
 
 					# Make the file readable for everyone
-- 
2.43.0


From caa22e9660731c08d4fa7d1c62c8e444c002d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:22 +0000
Subject: [PATCH 052/103] fix: downloader: Try the next mirror if the database
 cannot be opened

---
 src/python/location/downloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 9dca48c..aabb439 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -199,7 +199,11 @@ class Downloader(object):
 		"""
 		log.debug("Opening downloaded database at %s" % f.name)
 
-		db = Database(f.name)
+		try:
+			db = Database(f.name)
+		except OSError as e:
+			log.error("Could not open database: %s" % e)
+			return False
 
 		# Database is not recent
 		if timestamp and db.created_at < timestamp:
-- 
2.43.0


From 38e8c68068d98f7fe86299f80caeffe5ac774596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:51 +0000
Subject: [PATCH 053/103] fix: location: Do not install older databases if the
 latest version is unknown

---
 src/scripts/location.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index b34cc91..d60f3c4 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -449,6 +449,10 @@ class CLI(object):
 			log.info("Already on the latest version")
 			return
 
+		# Never replace the local database by an older one if we don't know the latest version
+		if db and not t:
+			t = db.created_at
+
 		# Download the database into the correct directory
 		tmpdir = os.path.dirname(ns.database)
 
-- 
2.43.0


From 92adda3fa8197d0979be3b55596a7feb95f5f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:59 +0000
Subject: [PATCH 054/103] fix: location: Do not crash when the database cannot
 be opened

---
 src/scripts/location.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index d60f3c4..27886a8 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -210,7 +210,7 @@ class CLI(object):
 		# Open database
 		try:
 			db = location.Database(args.database)
-		except FileNotFoundError as e:
+		except OSError as e:
 			# Allow continuing without a database
 			if args.func == self.handle_update:
 				db = None
-- 
2.43.0


From 57e6c8b6df47575b1e2a5e3de96cfa03c52e39fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:59 +0000
Subject: [PATCH 055/103] fix: location: dump: Report when the output could not
 be written

---
 src/scripts/location.in | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 27886a8..d091ae6 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -388,6 +388,9 @@ class CLI(object):
 				if n.has_flag(flag):
 					f.write(format % (flags[flag], "yes"))
 
+		# Flush all output
+		f.flush()
+
 	def handle_get_as(self, db, ns):
 		"""
 			Gets information about Autonomous Systems
-- 
2.43.0


From b96bde4acf96f02b9c881ebdc5309e8d5bf5ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:02 +0000
Subject: [PATCH 056/103] fix: location: list-countries: Don't fail for
 countries without a continent or name

---
 src/scripts/location.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index d091ae6..407d101 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -506,10 +506,10 @@ class CLI(object):
 			]
 
 			if ns.show_continent:
-				line.append(country.continent_code)
+				line.append(country.continent_code or "")
 
 			if ns.show_name:
-				line.append(country.name)
+				line.append(country.name or "")
 
 			# Format the output
 			line = " ".join(line)
-- 
2.43.0


From a7fc51638c4de6bd3978ea83365e2aad324ecb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:06 +0000
Subject: [PATCH 057/103] fix: location: Don't overwrite the beginning of the
 output when listing networks

---
 src/scripts/location.in | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 407d101..58a2380 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -521,26 +521,28 @@ class CLI(object):
 		writer = self.__get_output_formatter(ns)
 
 		for asn in ns.asn:
-			f = writer("AS%s" % asn, family=ns.family, f=sys.stdout)
+			f = writer("AS%s" % asn, family=ns.family)
 
 			# Print all matching networks
 			for n in db.search_networks(asns=[asn], family=ns.family):
 				f.write(n)
 
 			f.finish()
+			f.print()
 
 	def handle_list_networks_by_cc(self, db, ns):
 		writer = self.__get_output_formatter(ns)
 
 		for country_code in ns.country_code:
 			# Open standard output
-			f = writer(country_code, family=ns.family, f=sys.stdout)
+			f = writer(country_code, family=ns.family)
 
 			# Print all matching networks
 			for n in db.search_networks(country_codes=[country_code], family=ns.family):
 				f.write(n)
 
 			f.finish()
+			f.print()
 
 	def handle_list_networks_by_flags(self, db, ns):
 		flags = 0
@@ -561,21 +563,23 @@ class CLI(object):
 			raise ValueError(_("You must at least pass one flag"))
 
 		writer = self.__get_output_formatter(ns)
-		f = writer("custom", family=ns.family, f=sys.stdout)
+		f = writer("custom", family=ns.family)
 
 		for n in db.search_networks(flags=flags, family=ns.family):
 			f.write(n)
 
 		f.finish()
+		f.print()
 
 	def handle_list_bogons(self, db, ns):
 		writer = self.__get_output_formatter(ns)
-		f = writer("bogons", family=ns.family, f=sys.stdout)
+		f = writer("bogons", family=ns.family)
 
 		for n in db.list_bogons(family=ns.family):
 			f.write(n)
 
 		f.finish()
+		f.print()
 
 	def handle_export(self, db, ns):
 		countries, asns = [], []
-- 
2.43.0


From 116bb44f6321842107a412344cb53e95609f75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:29 +0000
Subject: [PATCH 058/103] fix: importer: Import large AS numbers from WHOIS and
 skip those that are invalid

---
 src/scripts/location-importer.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3e651b4..5efa89b 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -914,7 +914,7 @@ class CLI(object):
 
 			# Create some temporary tables to store parsed data
 			self.db.execute("""
-				CREATE TEMPORARY TABLE _autnums(number integer NOT NULL,
+				CREATE TEMPORARY TABLE _autnums(number bigint NOT NULL,
 					organization text NOT NULL, source text NOT NULL) ON COMMIT DROP;
 				CREATE UNIQUE INDEX _autnums_number ON _autnums(number);
 
@@ -1286,6 +1286,10 @@ class CLI(object):
 		if not autnum or not "asn" in autnum:
 			return
 
+		# Skip any invalid ASNs
+		if not self._check_parsed_asn(int(autnum["asn"])):
+			return
+
 		# Insert a dummy organisation handle into our temporary organisations
 		# table in case the AS does not have an organisation handle set, but
 		# has a description (a quirk often observed in APNIC area), so we can
-- 
2.43.0


From a336634d25bb86ce7b95e616f928c7ac62c5a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:32 +0000
Subject: [PATCH 059/103] fix: importer: Skip networks that cannot be parsed
 instead of failing the entire source

---
 src/scripts/location-importer.in | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 5efa89b..7c2d72e 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1343,7 +1343,10 @@ class CLI(object):
 
 						# How many octets do we need to add?
 						# (LACNIC does not seem to have a /8 or greater assigned, so the following should suffice.)
-						if ldigits == 1:
+						if not len(start_address) == 2:
+							log.warning("Could not parse line: %s" % line)
+							return
+						elif ldigits == 1:
 							start_address = start_address[0] + ".0.0/" + start_address[1]
 						elif ldigits == 2:
 							start_address = start_address[0] + ".0/" + start_address[1]
@@ -1370,10 +1373,18 @@ class CLI(object):
 						log.warning("Could not parse line: %s" % line)
 						return
 
-				inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				try:
+					inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				except (TypeError, ValueError):
+					log.warning("Invalid IP address range: %s" % line)
+					return
 
 			elif key == "inet6num":
-				inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				try:
+					inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				except ValueError:
+					log.warning("Could not parse line: %s" % line)
+					return
 
 			elif key == "country":
 				cc = val.upper()
-- 
2.43.0


From a3be2878c7a942cf239e113acf08a5bb7e1c1dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:34 +0000
Subject: [PATCH 060/103] fix: importer: Skip organisations without a handle or
 name instead of failing the entire source

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 7c2d72e..4f0e01d 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1500,8 +1500,8 @@ class CLI(object):
 			elif key == "org-name":
 				org[key] = val
 
-		# Skip empty objects
-		if not org:
+		# Skip incomplete objects
+		if not org.get("organisation") or not org.get("org-name"):
 			return
 
 		self.db.execute("INSERT INTO _organizations(handle, name, source) \
-- 
2.43.0


From 8e3dad30a65387a243122fb4a955dd79b099d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:37 +0000
Subject: [PATCH 061/103] fix: importer: ARIN: Skip AS numbers that cannot be
 parsed

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 4f0e01d..a52d60a 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1120,13 +1120,13 @@ class CLI(object):
 			# Cast to a number
 			try:
 				first_asn = int(first_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % first_asn)
 				continue
 
 			try:
 				last_asn = int(last_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % last_asn)
 				continue
 
-- 
2.43.0


From e8d11cbc7c22d15ebf32269d3a621f80daffda70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:40 +0000
Subject: [PATCH 062/103] fix: importer: Skip networks that start at 0.0.0.0 or
 ::

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index a52d60a..84a07f1 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1191,7 +1191,7 @@ class CLI(object):
 			return False
 
 		# Ignore anything that is unspecified IP range (See RFC 5735 for IPv4 or RFC 2373 for IPv6)
-		elif network.is_unspecified:
+		elif network.network_address.is_unspecified:
 			log.debug("Skipping unspecified network: %s" % network)
 			return False
 
-- 
2.43.0


From 8cbb7fe935a92aa0a58dae2a10a639ad6785ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:10 +0000
Subject: [PATCH 063/103] fix: importer: Import the exact address range of
 lines in extended format

---
 src/scripts/location-importer.in | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 84a07f1..eec1f78 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -26,7 +26,6 @@ import io
 import ipaddress
 import json
 import logging
-import math
 import re
 import socket
 import sys
@@ -1568,21 +1567,20 @@ class CLI(object):
 			log.warning("Invalid prefix: %s" % prefix)
 			return
 
-		# Fix prefix length for IPv4
-		if type == "ipv4":
-			prefix = 32 - int(math.log(prefix, 2))
-
 		# Try to parse the address
 		try:
-			network = ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)
+			# IPv4 lines carry the number of addresses instead of a prefix
+			if type == "ipv4":
+				address = ipaddress.IPv4Address(address)
+
+				networks = list(ipaddress.summarize_address_range(address, address + (prefix - 1)))
+			else:
+				networks = [ipaddress.IPv6Network("%s/%s" % (address, prefix), strict=False)]
 		except ValueError:
 			log.warning("Invalid IP address: %s" % address)
 			return
 
-		if not self._check_parsed_network(network):
-			return
-
-		self.db.execute("""
+		self.db.executemany("""
 			INSERT INTO
 				networks
 			(
@@ -1597,7 +1595,10 @@ class CLI(object):
 			)
 			ON CONFLICT (network)
 				DO UPDATE SET country = excluded.country
-			""", "%s" % network, country_code, [country_code], source_key,
+			""", (
+				("%s" % network, country_code, [country_code], source_key)
+					for network in networks if self._check_parsed_network(network)
+			),
 		)
 
 	async def handle_update_announcements(self, ns):
-- 
2.43.0


From 4b2c5811a62e8010f407f6ad1318c62237fc9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:47 +0000
Subject: [PATCH 064/103] fix: importer: Spamhaus DROP: Don't accept feeds
 without any networks and ignore duplicates

---
 src/scripts/location-importer.in | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index eec1f78..e8593fd 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2358,8 +2358,8 @@ class CLI(object):
 		"""
 			Import Spamhaus DROP IP feeds
 		"""
-		# Count all lines
-		lines = 0
+		# Count all networks
+		networks = 0
 
 		# Walk through all lines
 		for line in f:
@@ -2369,15 +2369,12 @@ class CLI(object):
 			# Strip off any comments
 			line, _, comment = line.partition(";")
 
-			# Ignore empty lines
-			if not line:
-				continue
-
 			# Strip any excess whitespace
 			line = line.strip()
 
-			# Increment line counter
-			lines += 1
+			# Ignore empty lines
+			if not line:
+				continue
 
 			# Parse the network
 			try:
@@ -2403,11 +2400,16 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % network, name, True,
+				)
+				ON CONFLICT (network, source) DO NOTHING
+				""", "%s" % network, name, True,
 			)
 
+			# Increment network counter
+			networks += 1
+
 		# Raise an exception if we could not import anything
-		if not lines:
+		if not networks:
 			raise RuntimeError("Received bogus feed %s with no data" % name)
 
 	async def _import_spamhaus_asndrop(self, name, f):
-- 
2.43.0


From d33229925d23f23eee9eaf9f1b537ed0029e33f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:50 +0000
Subject: [PATCH 065/103] fix: importer: Spamhaus ASNDROP: Skip unexpected
 lines and ignore duplicates

---
 src/scripts/location-importer.in | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index e8593fd..41d836c 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2427,6 +2427,11 @@ class CLI(object):
 				log.warning("%s: Unable to parse JSON object %s: %s" % (name, line, e))
 				continue
 
+			# Skip anything that is not an object
+			if not isinstance(line, dict):
+				log.warning("%s: Skipping unexpected line %s" % (name, line))
+				continue
+
 			# Fetch type
 			type = line.get("type")
 
@@ -2438,7 +2443,7 @@ class CLI(object):
 			asn  = line.get("asn")
 
 			# Skip any lines without an ASN
-			if not asn:
+			if not isinstance(asn, int):
 				continue
 
 			# Filter invalid ASNs
@@ -2458,7 +2463,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % asn, name, True,
+				)
+				ON CONFLICT (number, source) DO NOTHING
+				""", "%s" % asn, name, True,
 			)
 
 	@staticmethod
-- 
2.43.0


From 2d314dfeb38c745c391a9c24391ddb3abe4f6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:52 +0000
Subject: [PATCH 066/103] fix: importer: AWS: Skip prefixes that cannot be
 parsed or that don't have a region

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 41d836c..b05f9d8 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2297,7 +2297,7 @@ class CLI(object):
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(network)
-			except ValuleError as e:
+			except ValueError as e:
 				log.warning("%s: Unable to parse prefix %s" % (name, network))
 				continue
 
@@ -2306,7 +2306,7 @@ class CLI(object):
 				continue
 
 			# Fetch the region
-			region = prefix.get("region")
+			region = prefix.get("region", "")
 
 			# Set some defaults
 			cc = None
-- 
2.43.0


From 67e0fd5dd01876e6a1a1b7ab81dc28956b12d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:27 +0000
Subject: [PATCH 067/103] fix: importer: Overrides: Don't fail on lines without
 a colon

---
 src/scripts/location-importer.in | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index b05f9d8..9c1ba1e 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2528,15 +2528,12 @@ def read_blocks(f):
 		data = {}
 
 		for i, line in enumerate(block):
-			key, value = line.split(":", 1)
+			key, value = split_line(line)
 
 			# The key of the first line defines the type
 			if i == 0:
 				type = key
 
-			# Strip any excess whitespace
-			value = value.strip()
-
 			# Store some values as a list
 			if type == "geofeed" and key == "network":
 				try:
-- 
2.43.0


From 1101d06cd5223a30067bab384eb174c11d494471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:30 +0000
Subject: [PATCH 068/103] fix: importer: Overrides: Don't permit a geofeed for
 everything if its networks are invalid

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9c1ba1e..2e43d42 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2118,7 +2118,7 @@ class CLI(object):
 								networks.append(n)
 
 							# If no networks have been specified, permit for everything
-							if not networks:
+							if not "network" in block:
 								networks = [
 									ipaddress.ip_network("::/0"),
 									ipaddress.ip_network("0.0.0.0/0"),
-- 
2.43.0


From c4436554d93272c8fae7867f022a8b0f284d01fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:33 +0000
Subject: [PATCH 069/103] fix: importer: Overrides: Skip invalid AS numbers

---
 src/scripts/location-importer.in | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 2e43d42..1bea68e 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2073,6 +2073,11 @@ class CLI(object):
 							# Strip "AS"
 							autnum = autnum[2:]
 
+							# Check if the AS number is valid
+							if not re.match(r"^[0-9]+$", autnum) or int(autnum) > 0xffffffff:
+								log.warning("Invalid AS number: AS%s" % autnum)
+								continue
+
 							self.db.execute("""
 								INSERT INTO
 									autnum_overrides
-- 
2.43.0


From cf02590a46a26d48a82075c458028ebe119d3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:36 +0000
Subject: [PATCH 070/103] fix: importer: Overrides: Skip blocks with an invalid
 country code

---
 src/scripts/location-importer.in | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 1bea68e..4de303d 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2023,6 +2023,13 @@ class CLI(object):
 
 				with open(file, "rb") as f:
 					for type, block in read_blocks(f):
+						country = block.get("country")
+
+						# Check the country code
+						if country and not location.country_code_is_valid(country):
+							log.warning("Skipping %s with invalid country code: %s" % (type, country))
+							continue
+
 						if type == "net":
 							network = block.get("net")
 							# Try to parse and normalise the network
-- 
2.43.0


From abaf2588b50ee813795b96af30b81acff3ae82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:37 +0000
Subject: [PATCH 071/103] fix: importer: Geofeeds: Skip lines that cannot be
 stored in the database

---
 src/scripts/location-importer.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 4de303d..c5e30aa 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1910,6 +1910,12 @@ class CLI(object):
 									% (lineno, geofeed.url))
 								continue
 
+							# Ignore any lines with binary data
+							if "\0" in line:
+								log.debug("Binary data in line %s in %s" \
+									% (lineno, geofeed.url))
+								continue
+
 							# Strip any newline
 							line = line.rstrip()
 
-- 
2.43.0


From 63cfbb0d7399ad7b1ff10c3458c56cbaf3797011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:40 +0000
Subject: [PATCH 072/103] fix: importer: Geofeeds: Don't fail if any of them
 cannot be downloaded or decompressed

---
 src/scripts/location-importer.in | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index c5e30aa..d5bfdc8 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -30,6 +30,7 @@ import re
 import socket
 import sys
 import urllib.error
+import zlib
 
 # Load our location module
 import location
@@ -1890,14 +1891,14 @@ class CLI(object):
 						timeout=10,
 					)
 
-					# Remove any previous data
-					self.db.execute("DELETE FROM geofeed_networks \
-						WHERE geofeed_id = %s", geofeed.id)
-
 					lineno = 0
 
 					# Read the output line by line
-					with self.db.pipeline():
+					with self.db.transaction(), self.db.pipeline():
+						# Remove any previous data
+						self.db.execute("DELETE FROM geofeed_networks \
+							WHERE geofeed_id = %s", geofeed.id)
+
 						for line in f:
 							lineno += 1
 
@@ -1995,7 +1996,7 @@ class CLI(object):
 							WHERE geofeed_id = %s", geofeed.id)
 
 				# Catch any other errors and connection timeouts
-				except (http.client.InvalidURL, urllib.request.URLError, TimeoutError) as e:
+				except (http.client.HTTPException, OSError, EOFError, ValueError, zlib.error) as e:
 					log.debug("Could not fetch URL %s: %s" % (geofeed.url, e))
 
 					self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
-- 
2.43.0


From 212580757e9383fbd6ec7938d30a74cee0790e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:42 +0000
Subject: [PATCH 073/103] fix: downloader: Detect when a download ended early

---
 src/python/location/downloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index aabb439..9bc04e4 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -246,6 +246,10 @@ class Downloader(object):
 
 				t.write(buf)
 
+			# Check if we have received everything
+			if f.length:
+				raise http.client.IncompleteRead(b"", f.length)
+
 		# Rewind the temporary file
 		t.seek(0)
 
-- 
2.43.0


From 80427cf3031ce1d96cdaa837287a46a96c6b183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:16 +0000
Subject: [PATCH 074/103] fix: importer: Write networks that are announced by
 ASes with large numbers

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d5bfdc8..c021dd3 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -379,7 +379,7 @@ class CLI(object):
 				n
 			(
 				network               inet NOT NULL,
-				autnum                integer,
+				autnum                bigint,
 				country               text,
 				is_anonymous_proxy    boolean,
 				is_satellite_provider boolean,
-- 
2.43.0


From 931480d25575e9001ba0270ea0176a5ef91262c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:28 +0000
Subject: [PATCH 075/103] fix: importer: Bird: Don't wait forever for more data
 after errors, empty lines or lost connections

---
 src/scripts/location-importer.in | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index c021dd3..4dcc52f 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1751,14 +1751,18 @@ class CLI(object):
 
 		while True:
 			# Fill up the buffer
-			buffer += s.recv(4096)
+			data = s.recv(4096)
+			if not data:
+				raise EOFError("Bird closed the connection")
+
+			buffer += data
 
 			while True:
 				# Search for the next newline
 				pos = buffer.find(b"\n")
 
 				# If we cannot find one, we go back and read more data
-				if pos <= 0:
+				if pos < 0:
 					break
 
 				# Cut after the newline character
@@ -1781,6 +1785,14 @@ class CLI(object):
 					elif code == 1:
 						continue
 
+					# The network does not exist
+					elif code == 8001:
+						return
+
+					# Raise any other errors
+					elif code >= 8000:
+						raise RuntimeError("Bird reported an error: %s" % line.decode())
+
 				# Otherwise return the line
 				yield line
 
-- 
2.43.0


From cb35f445bc8b6072ed33f339bf0438a14dd50177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:31 +0000
Subject: [PATCH 076/103] fix: importer: Bird: Don't fail for networks with
 more than one route

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 4dcc52f..a7196ca 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1668,7 +1668,7 @@ class CLI(object):
 
 	async def _handle_update_announcements_from_bird(self, server):
 		# Pre-compile the regular expression for faster searching
-		route = re.compile(b"^\s(.+?)\s+.+?\[(?:AS(.*?))?.\]$")
+		route = re.compile(b"^\s(\S+)\s+.+?\[(?:AS(.*?))?.\]$")
 
 		log.info("Requesting routing table from Bird (%s)" % server)
 
-- 
2.43.0


From 3cdc3a95d10becf78137f07538f0619656dc2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 077/103] fix: Report if the name of an AS could not be copied

---
 src/as.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/as.c b/src/as.c
index 97c0a56..c25383f 100644
--- a/src/as.c
+++ b/src/as.c
@@ -90,13 +90,18 @@ LOC_EXPORT const char* loc_as_get_name(struct loc_as* as) {
 }
 
 LOC_EXPORT int loc_as_set_name(struct loc_as* as, const char* name) {
-	if (as->name)
+	if (as->name) {
 		free(as->name);
+		as->name = NULL;
+	}
 
-	if (name)
+	if (name) {
 		as->name = strdup(name);
-	else
-		as->name = NULL;
+
+		// Report error if we could not copy the string
+		if (!as->name)
+			return 1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From a7cd7661a3ca560d9eaa11afcdb0566d675dc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 078/103] fix: Release the first half if a network could not be
 split

---
 src/network.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index e064ff2..36c7107 100644
--- a/src/network.c
+++ b/src/network.c
@@ -361,8 +361,11 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
-- 
2.43.0


From 370de89c51f20378447ac73f0e76a5736d8317c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 079/103] fix: Report if networks could not be excluded from a
 network

---
 src/network.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 36c7107..7065025 100644
--- a/src/network.c
+++ b/src/network.c
@@ -555,9 +555,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 			if (loc_network_overlaps(subnet, subnet_to_check)) {
 				passed = 0;
 
-				__loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
-
+				r = __loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
 				loc_network_unref(subnet);
+				if (r) {
+					loc_network_unref(subnet_to_check);
+					goto ERROR;
+				}
 				break;
 			}
 
@@ -579,6 +582,10 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 
 		if (passed) {
 			r = loc_network_list_push(subnets, subnet_to_check);
+			if (r) {
+				loc_network_unref(subnet_to_check);
+				goto ERROR;
+			}
 		}
 
 		loc_network_unref(subnet_to_check);
@@ -587,6 +594,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 	loc_network_list_unref(to_check);
 
 	return subnets;
+
+ERROR:
+	loc_network_list_unref(to_check);
+	loc_network_list_unref(subnets);
+
+	return NULL;
 }
 
 int loc_network_merge(struct loc_network** n,
-- 
2.43.0


From dd196b849b93abe279c0542bd9e6e474ec82ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:16 +0000
Subject: [PATCH 080/103] fix: Don't allocate memory to search lists, which
 failed silently

---
 src/as-list.c      | 14 +++++---------
 src/country-list.c | 20 ++++++++------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/as-list.c b/src/as-list.c
index 50805e7..e53e2da 100644
--- a/src/as-list.c
+++ b/src/as-list.c
@@ -152,16 +152,12 @@ LOC_EXPORT int loc_as_list_contains(
 
 LOC_EXPORT int loc_as_list_contains_number(
 		struct loc_as_list* list, uint32_t number) {
-	struct loc_as* as;
-
-	int r = loc_as_new(list->ctx, &as, number);
-	if (r)
-		return -1;
-
-	r = loc_as_list_contains(list, as);
-	loc_as_unref(as);
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (loc_as_get_number(list->elements[i]) == number)
+			return 1;
+	}
 
-	return r;
+	return 0;
 }
 
 static int __loc_as_cmp(const void* as1, const void* as2) {
diff --git a/src/country-list.c b/src/country-list.c
index 536fd9e..7b78171 100644
--- a/src/country-list.c
+++ b/src/country-list.c
@@ -16,6 +16,7 @@
 
 #include <errno.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <libloc/compat.h>
 #include <libloc/country.h>
@@ -150,21 +151,16 @@ LOC_EXPORT int loc_country_list_contains(
 
 LOC_EXPORT int loc_country_list_contains_code(
 		struct loc_country_list* list, const char* code) {
-	struct loc_country* country;
-
-	int r = loc_country_new(list->ctx, &country, code);
-	if (r) {
-		// Ignore invalid country codes which would never match
-		if (errno == EINVAL)
-			return 0;
+	// Ignore invalid country codes which would never match
+	if (!loc_country_code_is_valid(code))
+		return 0;
 
-		return r;
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (strcmp(loc_country_get_code(list->elements[i]), code) == 0)
+			return 1;
 	}
 
-	r = loc_country_list_contains(list, country);
-	loc_country_unref(country);
-
-	return r;
+	return 0;
 }
 
 static int __loc_country_cmp(const void* country1, const void* country2) {
-- 
2.43.0


From b6192ad69f40e8fa1a49cd37012b8368f34e5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:23 +0000
Subject: [PATCH 081/103] fix: Report if a network could not be read instead of
 returning a less specific one

---
 src/database.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/database.c b/src/database.c
index 259fb35..0a1c6f5 100644
--- a/src/database.c
+++ b/src/database.c
@@ -882,7 +882,7 @@ static int __loc_database_lookup_handle_leaf(struct loc_database* db, const stru
 
 		loc_network_unref(*network);
 		*network = NULL;
-		return 1;
+		return 0;
 	}
 
 	// A network was found and the IP address matches
@@ -928,14 +928,14 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
-		// End here if a result was found
-		if (r == 0 && *network)
-			return r;
-
 		// Raise any errors
-		else if (r < 0)
+		if (r)
 			return r;
 
+		// End here if a result was found
+		if (*network)
+			return 0;
+
 		DEBUG(db->ctx, "No match found below level %u\n", level);
 	} else {
 		DEBUG(db->ctx, "Tree ended at level %u\n", level);
@@ -944,7 +944,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
 		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
+		if (r)
 			return r;
 	}
 
-- 
2.43.0


From 72520aa54ccf1b8fcf80bbd98a7ec8d758b4f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:45 +0000
Subject: [PATCH 082/103] fix: Don't crash if there is not enough memory for
 the network tree

---
 src/network-tree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index bac2de3..52d97aa 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -105,6 +105,8 @@ static struct loc_network_tree_node* loc_network_tree_get_path(struct loc_networ
 	for (unsigned int i = 0; i < prefix; i++) {
 		// Check if the ith bit is one or zero
 		node = loc_network_tree_get_node(node, loc_address_get_bit(address, i));
+		if (!node)
+			return NULL;
 	}
 
 	return node;
@@ -162,7 +164,8 @@ int loc_network_tree_walk(struct loc_network_tree* tree,
 static void loc_network_tree_free(struct loc_network_tree* tree) {
 	DEBUG(tree->ctx, "Releasing network tree at %p\n", tree);
 
-	loc_network_tree_node_unref(tree->root);
+	if (tree->root)
+		loc_network_tree_node_unref(tree->root);
 
 	loc_unref(tree->ctx);
 	free(tree);
-- 
2.43.0


From eea526585c2715ed2971307274f7432638c35071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 083/103] fix: Release ASes and countries that could not be
 added to a writer

---
 src/writer.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 73e16f6..7ddc0f5 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -245,7 +245,13 @@ LOC_EXPORT int loc_writer_add_as(struct loc_writer* writer, struct loc_as** as,
 		return r;
 
 	// Append it to the list
-	return loc_as_list_append(writer->as_list, *as);
+	r = loc_as_list_append(writer->as_list, *as);
+	if (r) {
+		loc_as_unref(*as);
+		*as = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_network** network, const char* string) {
@@ -273,7 +279,13 @@ LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_coun
 		return r;
 
 	// Append it to the list
-	return loc_country_list_append(writer->country_list, *country);
+	r = loc_country_list_append(writer->country_list, *country);
+	if (r) {
+		loc_country_unref(*country);
+		*country = NULL;
+	}
+
+	return r;
 }
 
 static void make_magic(struct loc_writer* writer, struct loc_database_magic* magic,
-- 
2.43.0


From 444eca6d35491f01396e8f6025a0ac92ecc36894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 084/103] fix: Fail writing if a name could not be added to the
 string pool

---
 src/as.c      |  3 +++
 src/country.c |  5 ++++-
 src/writer.c  | 14 ++++++++++----
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/as.c b/src/as.c
index c25383f..c9733c3 100644
--- a/src/as.c
+++ b/src/as.c
@@ -140,6 +140,9 @@ int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool,
 
 	// Save the name string in the string pool
 	off_t name = loc_stringpool_add(pool, as->name ? as->name : "");
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/country.c b/src/country.c
index 56b021a..292c9e4 100644
--- a/src/country.c
+++ b/src/country.c
@@ -187,8 +187,11 @@ int loc_country_to_database_v1(struct loc_country* country,
 		loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
-	if (country->name)
+	if (country->name) {
 		name = loc_stringpool_add(pool, country->name);
+		if (name < 0)
+			return 1;
+	}
 
 	dbobj->name = htobe32(name);
 
diff --git a/src/writer.c b/src/writer.c
index 7ddc0f5..5b48a32 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -366,13 +366,16 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 			return 1;
 
 		// Convert AS into database format
-		loc_as_to_database_v1(as, writer->pool, &block);
+		int r = loc_as_to_database_v1(as, writer->pool, &block);
 
 		// Unref AS
 		loc_as_unref(as);
 
+		if (r)
+			return r;
+
 		// Write to disk
-		int r = write_block(writer, &block, sizeof(block), offset, f);
+		r = write_block(writer, &block, sizeof(block), offset, f);
 		if (r)
 			return r;
 
@@ -633,13 +636,16 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		memset(&block, '\0', sizeof(block));
 
 		// Convert country into database format
-		loc_country_to_database_v1(country, writer->pool, &block);
+		int r = loc_country_to_database_v1(country, writer->pool, &block);
 
 		// Unref country
 		loc_country_unref(country);
 
+		if (r)
+			return r;
+
 		// Write to disk
-		int r = write_block(writer, &block, sizeof(block), offset, f);
+		r = write_block(writer, &block, sizeof(block), offset, f);
 		if (r)
 			return r;
 
-- 
2.43.0


From 1eb405179d05e964e86672c7c2335202d0b52c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 085/103] fix: Don't crash if there is not enough memory to
 write the network tree

---
 src/writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 5b48a32..464b259 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -513,6 +513,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_zero);
 			loc_network_tree_node_unref(node_zero);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -523,6 +528,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_one);
 			loc_network_tree_node_unref(node_one);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
-- 
2.43.0


From 5675113bb75162077881666b033b47659dc3df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 086/103] fix: Release the enclosing network if the stack could
 not be grown

---
 src/network-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 52d97aa..ec14a1e 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -528,7 +528,7 @@ static int loc_network_tree_dedup_step(struct loc_network* network, void* data)
 	// If network did not get removed, we push it into the stack
 	r = loc_network_list_push(ctx->stack, network);
 	if (r)
-		return r;
+		goto END;
 
 END:
 	if (n)
-- 
2.43.0


From 6436fddd93acd9c81ef2bfd9163618613be65728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:29 +0000
Subject: [PATCH 087/103] fix: Don't crash if there is not enough memory for a
 digest

---
 src/database.c | 6 ++++++
 src/writer.c   | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/database.c b/src/database.c
index 0a1c6f5..a48d4a3 100644
--- a/src/database.c
+++ b/src/database.c
@@ -565,6 +565,12 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	int r = 0;
 
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(db->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = 1;
+
+		goto CLEANUP;
+	}
 
 	// Initialise hash function
 	r = EVP_DigestVerifyInit(mdctx, NULL, NULL, NULL, pkey);
diff --git a/src/writer.c b/src/writer.c
index 464b259..3d49db8 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -684,6 +684,10 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		return -1;
+	}
 
 	// Initialise the context
 	r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
-- 
2.43.0


From 5cd2cf6dfe7c2f5c5e1658b59110dddd7053fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:37 +0000
Subject: [PATCH 088/103] fix: Close the key file after a database has been
 verified in Python

---
 src/python/database.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index 657f3f0..3e9256f 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -95,14 +95,23 @@ static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
 		return NULL;
 
 	// Re-open file descriptor
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
 	f = fdopen(fd, "r");
 	if (!f) {
 		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
 		return NULL;
 	}
 
 	int r = loc_database_verify(self->db, f);
 
+	fclose(f);
+
 	if (r == 0)
 		Py_RETURN_TRUE;
 
-- 
2.43.0


From b262a871052f7ba0697b3084485fa953e6b8b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:46 +0000
Subject: [PATCH 089/103] fix: Release the enumerator if a search in Python has
 invalid arguments

---
 src/python/database.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 3e9256f..5d44ebe 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -334,7 +334,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_country_list_new(loc_ctx, &countries);
 		if (r) {
 			PyErr_SetString(PyExc_SystemError, "Could not create country list");
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(country_codes); i++) {
@@ -343,7 +343,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			if (!PyUnicode_Check(item)) {
 				PyErr_SetString(PyExc_TypeError, "Country codes must be strings");
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
@@ -358,7 +358,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				}
 
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			// Append it to the list
@@ -368,7 +368,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_country_list_unref(countries);
 				loc_country_unref(country);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_country_unref(country);
@@ -379,7 +379,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_SystemError);
 
 			loc_country_list_unref(countries);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_country_list_unref(countries);
@@ -391,7 +391,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_as_list_new(loc_ctx, &asns);
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(asn_list); i++) {
@@ -401,13 +401,13 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetString(PyExc_TypeError, "ASNs must be numbers");
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			uint32_t number = 0;
 			if (!PyASN_Converter(item, &number)) {
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			struct loc_as* as;
@@ -417,7 +417,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			r = loc_as_list_append(asns, as);
@@ -426,7 +426,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_as_unref(as);
@@ -437,7 +437,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_OSError);
 
 			loc_as_list_unref(asns);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_as_list_unref(asns);
@@ -449,7 +449,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -459,7 +459,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -467,6 +467,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 	loc_database_enumerator_unref(enumerator);
 
 	return obj;
+
+ERROR:
+	loc_database_enumerator_unref(enumerator);
+
+	return NULL;
 }
 
 static PyObject* Database_countries(DatabaseObject* self) {
-- 
2.43.0


From b7d8eca184490f1b5f21f8e16cdd1c70dab14423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:53 +0000
Subject: [PATCH 090/103] fix: Close the key files after a writer has been
 created in Python

---
 src/python/writer.c | 62 +++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 9f18cd8..89ce58f 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -38,57 +38,71 @@ static void Writer_dealloc(WriterObject* self) {
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
 
+static FILE* open_private_key(PyObject* private_key) {
+	int fd = PyObject_AsFileDescriptor(private_key);
+	if (fd < 0)
+		return NULL;
+
+	// Re-open file descriptor
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
+	FILE* f = fdopen(fd, "r");
+	if (!f) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
+	}
+
+	return f;
+}
+
 static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	PyObject* private_key1 = NULL;
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
 	FILE* f2 = NULL;
-	int fd;
 
 	// Parse arguments
 	if (!PyArg_ParseTuple(args, "|OO", &private_key1, &private_key2))
 		return -1;
 
 	// Ignore None
-	if (private_key1 == Py_None) {
-		Py_DECREF(private_key1);
+	if (private_key1 == Py_None)
 		private_key1 = NULL;
-	}
 
-	if (private_key2 == Py_None) {
-		Py_DECREF(private_key2);
+	if (private_key2 == Py_None)
 		private_key2 = NULL;
-	}
 
 	// Convert into FILE*
 	if (private_key1) {
-		fd = PyObject_AsFileDescriptor(private_key1);
-		if (fd < 0)
+		f1 = open_private_key(private_key1);
+		if (!f1)
 			return -1;
-
-		// Re-open file descriptor
-		f1 = fdopen(fd, "r");
-		if (!f1) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
 	}
 
 	if (private_key2) {
-		fd = PyObject_AsFileDescriptor(private_key2);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f2 = fdopen(fd, "r");
+		f2 = open_private_key(private_key2);
 		if (!f2) {
-			PyErr_SetFromErrno(PyExc_IOError);
+			if (f1)
+				fclose(f1);
+
 			return -1;
 		}
 	}
 
 	// Create the writer object
-	return loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	int r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+
+	// The keys have been read
+	if (f1)
+		fclose(f1);
+	if (f2)
+		fclose(f2);
+
+	return r;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
-- 
2.43.0


From a5b8cd7043bebb640b982b1ebcb0c72793014859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 091/103] fix: Release databases in Perl when they are no
 longer used

---
 src/perl/Location.xs     | 10 +++++++---
 src/perl/lib/Location.pm |  3 +++
 src/perl/typemap         | 13 ++++++++++++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 67ce9ed..d72df69 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -333,8 +333,12 @@ get_as_name(db, as_number)
 
 void
 DESTROY(db)
-	struct loc_database* db;
+	SV* db;
 
 	CODE:
-		// Close database
-		loc_database_unref(db);
+		// Close database (once)
+		if (SvROK(db) && SvIOK(SvRV(db)) && SvIV(SvRV(db))) {
+			loc_database_unref(INT2PTR(struct loc_database*, SvIV(SvRV(db))));
+
+			sv_setiv(SvRV(db), 0);
+		}
diff --git a/src/perl/lib/Location.pm b/src/perl/lib/Location.pm
index 2782d53..1dac0ae 100644
--- a/src/perl/lib/Location.pm
+++ b/src/perl/lib/Location.pm
@@ -28,6 +28,9 @@ XSLoader::load('Location', $VERSION);
 
 # Preloaded methods go here.
 
+# Databases cannot be used in other threads
+sub CLONE_SKIP { 1 }
+
 1;
 __END__
 # Below is stub documentation for your module. You'd better edit it!
diff --git a/src/perl/typemap b/src/perl/typemap
index c53fb53..3a5e398 100644
--- a/src/perl/typemap
+++ b/src/perl/typemap
@@ -1,2 +1,13 @@
 TYPEMAP
-struct loc_database * T_PTRREF
+struct loc_database * T_LOC_DATABASE
+
+INPUT
+T_LOC_DATABASE
+	if (SvROK($arg) && SvIOK(SvRV($arg)) && SvIV(SvRV($arg))) {
+		$var = INT2PTR($type, SvIV(SvRV($arg)));
+	} else
+		croak(\"%s: %s is not an open database\", ${$ALIAS?\q[GvNAME(CvGV(cv))]:\qq[\"$pname\"]}, \"$var\");
+
+OUTPUT
+T_LOC_DATABASE
+	sv_setref_pv($arg, \"Location\", (void*)$var);
-- 
2.43.0


From 633e9dfcdff1b0a391e331d5bdb3efaa54a8da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 092/103] fix: Lua: Release the previous log callback and
 ignore further arguments

---
 src/lua/location.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lua/location.c b/src/lua/location.c
index 1c94889..7cc5d10 100644
--- a/src/lua/location.c
+++ b/src/lua/location.c
@@ -34,7 +34,8 @@
 
 struct loc_ctx* ctx = NULL;
 
-static int log_callback_ref = 0;
+// Where the callback function is stored in the registry
+#define LOG_CALLBACK	"location.log_callback"
 
 static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const char* file,
 		int line, const char* fn, const char* format, va_list args) {
@@ -49,7 +50,7 @@ static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const c
 		return;
 
 	// Fetch the Lua callback function
-	lua_rawgeti(L, LUA_REGISTRYINDEX, log_callback_ref);
+	lua_getfield(L, LUA_REGISTRYINDEX, LOG_CALLBACK);
 
 	// Pass the priority as first argument
 	lua_pushnumber(L, priority);
@@ -67,8 +68,9 @@ static int set_log_callback(lua_State* L) {
 	// Check if we have received a function
 	luaL_checktype(L, 1, LUA_TFUNCTION);
 
-	// Store a reference to the callback function
-	log_callback_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	// Store the callback function (and release any previous one)
+	lua_pushvalue(L, 1);
+	lua_setfield(L, LUA_REGISTRYINDEX, LOG_CALLBACK);
 
 	// Register our callback helper
 	if (ctx)
-- 
2.43.0


From 5895185b6552e0f23693b3910f6ff6f99c1334d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:34 +0000
Subject: [PATCH 093/103] fix: Lua: Do not let errors in the log callback
 unwind the library

---
 src/lua/location.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lua/location.c b/src/lua/location.c
index 7cc5d10..cca3829 100644
--- a/src/lua/location.c
+++ b/src/lua/location.c
@@ -58,8 +58,10 @@ static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const c
 	// Pass the message as second argument
 	lua_pushstring(L, message);
 
-	// Call the function
-	lua_call(L, 2, 0);
+	// Call the function. Any error must not unwind the library.
+	r = lua_pcall(L, 2, 0, 0);
+	if (r)
+		lua_pop(L, 1);
 
 	free(message);
 }
-- 
2.43.0


From 661759802e815e8752c614c1a53cddfc84c47e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 094/103] fix: Lua: Do not call the log callback in a coroutine
 that might be gone

---
 src/lua/location.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lua/location.c b/src/lua/location.c
index cca3829..3e1d6bb 100644
--- a/src/lua/location.c
+++ b/src/lua/location.c
@@ -74,6 +74,12 @@ static int set_log_callback(lua_State* L) {
 	lua_pushvalue(L, 1);
 	lua_setfield(L, LUA_REGISTRYINDEX, LOG_CALLBACK);
 
+	// We might have been called from a coroutine that does not live for as long as the callback
+#ifdef LUA_RIDX_MAINTHREAD
+	lua_rawgeti(L, LUA_REGISTRYINDEX, LUA_RIDX_MAINTHREAD);
+	L = lua_tothread(L, -1);
+#endif
+
 	// Register our callback helper
 	if (ctx)
 		loc_set_log_callback(ctx, log_callback, L);
-- 
2.43.0


From d4f7bc01dfdbfb196b2a2105514e4a64d8e0f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:11 +0000
Subject: [PATCH 095/103] fix: perl: Release the enumerator when countries
 cannot be read

---
 src/perl/Location.xs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index d72df69..fcef9bc 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -135,6 +135,8 @@ database_countries(db)
 		struct loc_country* country;
 		err = loc_database_enumerator_next_country(enumerator, &country);
 		if (err) {
+			loc_database_enumerator_unref(enumerator);
+
 			croak("Could not enumerate next country\n");
 		}
 
@@ -151,6 +153,8 @@ database_countries(db)
 			// Enumerate next item.
 			err = loc_database_enumerator_next_country(enumerator, &country);
 			if (err) {
+				loc_database_enumerator_unref(enumerator);
+
 				croak("Could not enumerate next country\n");
 			}
 		}
-- 
2.43.0


From 99b6409e3ea1036c2902307f6365316505a37286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 096/103] fix: python: Raise exceptions when objects have not
 been initialised

---
 src/python/as.c             | 25 +++++++++++++++-
 src/python/country.c        | 25 +++++++++++++++-
 src/python/database.c       | 58 +++++++++++++++++++++++++++++--------
 src/python/locationmodule.h | 11 +++++++
 src/python/network.c        | 49 ++++++++++++++++++++++++++++++-
 src/python/writer.c         | 34 ++++++++++++++++++++--
 6 files changed, 185 insertions(+), 17 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index f64df2a..5ee12ce 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -64,20 +64,29 @@ static void AS_dealloc(ASObject* self) {
 }
 
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
 	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return -1;
 
 	// Create the AS object
-	int r = loc_as_new(loc_ctx, &self->as, number);
+	int r = loc_as_new(loc_ctx, &as, number);
 	if (r)
 		return -1;
 
+	// Replace any previous AS
+	if (self->as)
+		loc_as_unref(self->as);
+
+	self->as = as;
+
 	return 0;
 }
 
 static PyObject* AS_repr(ASObject* self) {
+	RETURN_IF_UNINITIALISED(self->as, NULL);
+
 	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
 
@@ -88,6 +97,8 @@ static PyObject* AS_repr(ASObject* self) {
 }
 
 static PyObject* AS_str(ASObject* self) {
+	RETURN_IF_UNINITIALISED(self->as, NULL);
+
 	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
 
@@ -98,12 +109,16 @@ static PyObject* AS_str(ASObject* self) {
 }
 
 static PyObject* AS_get_number(ASObject* self) {
+	RETURN_IF_UNINITIALISED(self->as, NULL);
+
 	uint32_t number = loc_as_get_number(self->as);
 
 	return PyLong_FromLong(number);
 }
 
 static PyObject* AS_get_name(ASObject* self) {
+	RETURN_IF_UNINITIALISED(self->as, NULL);
+
 	const char* name = loc_as_get_name(self->as);
 
 	// Return None if no name has been set
@@ -114,6 +129,8 @@ static PyObject* AS_get_name(ASObject* self) {
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->as, -1);
+
 	const char* name = PyString_AsUTF8(value);
 	if (!name)
 		return -1;
@@ -128,6 +145,8 @@ static int AS_set_name(ASObject* self, PyObject* value) {
 }
 
 static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
+	RETURN_IF_UNINITIALISED(self->as, NULL);
+
 	int r;
 
 	// Check for type
@@ -136,6 +155,8 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 
 	ASObject* o = (ASObject*)other;
 
+	RETURN_IF_UNINITIALISED(o->as, NULL);
+
 	r = loc_as_cmp(self->as, o->as);
 
 	switch (op) {
@@ -165,6 +186,8 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 }
 
 static Py_hash_t AS_hash(ASObject* self) {
+	RETURN_IF_UNINITIALISED(self->as, -1);
+
 	uint32_t number = loc_as_get_number(self->as);
 
 	return number;
diff --git a/src/python/country.c b/src/python/country.c
index bc56387..c2a0835 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -45,22 +45,31 @@ static void Country_dealloc(CountryObject* self) {
 }
 
 static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_country* country = NULL;
 	const char* country_code = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &country_code))
 		return -1;
 
 	// Create the country object
-	int r = loc_country_new(loc_ctx, &self->country, country_code);
+	int r = loc_country_new(loc_ctx, &country, country_code);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 		return -1;
 	}
 
+	// Replace any previous country
+	if (self->country)
+		loc_country_unref(self->country);
+
+	self->country = country;
+
 	return 0;
 }
 
 static PyObject* Country_repr(CountryObject* self) {
+	RETURN_IF_UNINITIALISED(self->country, NULL);
+
 	const char* code = loc_country_get_code(self->country);
 	const char* name = loc_country_get_name(self->country);
 
@@ -71,6 +80,8 @@ static PyObject* Country_repr(CountryObject* self) {
 }
 
 static PyObject* Country_get_code(CountryObject* self) {
+	RETURN_IF_UNINITIALISED(self->country, NULL);
+
 	const char* code = loc_country_get_code(self->country);
 
 	return PyUnicode_FromString(code);
@@ -81,6 +92,8 @@ static PyObject* Country_str(CountryObject* self) {
 }
 
 static PyObject* Country_get_name(CountryObject* self) {
+	RETURN_IF_UNINITIALISED(self->country, NULL);
+
 	const char* name = loc_country_get_name(self->country);
 
 	// Return None if no name has been set
@@ -91,6 +104,8 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->country, -1);
+
 	const char* name = PyString_AsUTF8(value);
 	if (!name)
 		return -1;
@@ -105,6 +120,8 @@ static int Country_set_name(CountryObject* self, PyObject* value) {
 }
 
 static PyObject* Country_get_continent_code(CountryObject* self) {
+	RETURN_IF_UNINITIALISED(self->country, NULL);
+
 	const char* code = loc_country_get_continent_code(self->country);
 
 	if (!code)
@@ -114,6 +131,8 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->country, -1);
+
 	const char* code = PyString_AsUTF8(value);
 	if (!code)
 		return -1;
@@ -128,6 +147,8 @@ static int Country_set_continent_code(CountryObject* self, PyObject* value) {
 }
 
 static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int op) {
+	RETURN_IF_UNINITIALISED(self->country, NULL);
+
 	int r;
 
 	// Check for type
@@ -136,6 +157,8 @@ static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int o
 
 	CountryObject* o = (CountryObject*)other;
 
+	RETURN_IF_UNINITIALISED(o->country, NULL);
+
 	r = loc_country_cmp(self->country, o->country);
 
 	switch (op) {
diff --git a/src/python/database.c b/src/python/database.c
index 5d44ebe..bc33d0f 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -44,7 +44,9 @@ static void Database_dealloc(DatabaseObject* self) {
 }
 
 static int Database_init(DatabaseObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_database* db = NULL;
 	const char* path = NULL;
+	char* p = NULL;
 	FILE* f = NULL;
 
 	// Parse arguments
@@ -52,36 +54,55 @@ static int Database_init(DatabaseObject* self, PyObject* args, PyObject* kwargs)
 		return -1;
 
 	// Copy path
-	self->path = strdup(path);
-	if (!self->path)
+	p = strdup(path);
+	if (!p)
 		goto ERROR;
 
 	// Open the file for reading
-	f = fopen(self->path, "r");
+	f = fopen(p, "r");
 	if (!f)
 		goto ERROR;
 
 	// Load the database
-	int r = loc_database_new(loc_ctx, &self->db, f);
+	int r = loc_database_new(loc_ctx, &db, f);
 	if (r)
 		goto ERROR;
 
 	fclose(f);
+
+	// Replace any previous database
+	if (self->db)
+		loc_database_unref(self->db);
+
+	if (self->path)
+		free(self->path);
+
+	self->db = db;
+	self->path = p;
+
 	return 0;
 
 ERROR:
+	PyErr_SetFromErrno(PyExc_OSError);
+
 	if (f)
 		fclose(f);
 
-	PyErr_SetFromErrno(PyExc_OSError);
+	if (p)
+		free(p);
+
 	return -1;
 }
 
 static PyObject* Database_repr(DatabaseObject* self) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	return PyUnicode_FromFormat("<Database %s>", self->path);
 }
 
 static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	PyObject* public_key = NULL;
 	FILE* f = NULL;
 
@@ -119,6 +140,8 @@ static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
 }
 
 static PyObject* Database_get_description(DatabaseObject* self) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	const char* description = loc_database_get_description(self->db);
 	if (!description)
 		Py_RETURN_NONE;
@@ -127,6 +150,8 @@ static PyObject* Database_get_description(DatabaseObject* self) {
 }
 
 static PyObject* Database_get_vendor(DatabaseObject* self) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	const char* vendor = loc_database_get_vendor(self->db);
 	if (!vendor)
 		Py_RETURN_NONE;
@@ -135,6 +160,8 @@ static PyObject* Database_get_vendor(DatabaseObject* self) {
 }
 
 static PyObject* Database_get_license(DatabaseObject* self) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	const char* license = loc_database_get_license(self->db);
 	if (!license)
 		Py_RETURN_NONE;
@@ -143,12 +170,16 @@ static PyObject* Database_get_license(DatabaseObject* self) {
 }
 
 static PyObject* Database_get_created_at(DatabaseObject* self) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	time_t created_at = loc_database_created_at(self->db);
 
 	return PyLong_FromLong(created_at);
 }
 
 static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
@@ -175,6 +206,8 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 }
 
 static PyObject* Database_get_country(DatabaseObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	struct loc_country* country = NULL;
 	const char* country_code = NULL;
 
@@ -208,6 +241,8 @@ static PyObject* Database_get_country(DatabaseObject* self, PyObject* args) {
 }
 
 static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	struct loc_network* network = NULL;
 	const char* address = NULL;
 	int r;
@@ -254,6 +289,8 @@ static PyObject* new_database_enumerator(PyTypeObject* type, struct loc_database
 
 static PyObject* Database_iterate_all(DatabaseObject* self,
 		enum loc_database_enumerator_mode what, int family, int flags) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	struct loc_database_enumerator* enumerator;
 
 	int r = loc_database_enumerator_new(&enumerator, self->db, what, flags);
@@ -277,6 +314,8 @@ static PyObject* Database_ases(DatabaseObject* self) {
 }
 
 static PyObject* Database_search_as(DatabaseObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	const char* string = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &string))
@@ -309,6 +348,8 @@ static PyObject* Database_networks_flattened(DatabaseObject *self) {
 }
 
 static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args, PyObject* kwargs) {
+	RETURN_IF_UNINITIALISED(self->db, NULL);
+
 	char* kwlist[] = { "country_codes", "asns", "flags", "family", "flatten", NULL };
 	PyObject* country_codes = NULL;
 	PyObject* asn_list = NULL;
@@ -609,12 +650,6 @@ PyTypeObject DatabaseType = {
 	.tp_repr =               (reprfunc)Database_repr,
 };
 
-static PyObject* DatabaseEnumerator_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
-	DatabaseEnumeratorObject* self = (DatabaseEnumeratorObject*)type->tp_alloc(type, 0);
-
-	return (PyObject*)self;
-}
-
 static void DatabaseEnumerator_dealloc(DatabaseEnumeratorObject* self) {
 	loc_database_enumerator_unref(self->enumerator);
 
@@ -682,7 +717,6 @@ PyTypeObject DatabaseEnumeratorType = {
 	.tp_basicsize =          sizeof(DatabaseEnumeratorObject),
 	.tp_flags =              Py_TPFLAGS_DEFAULT,
 	.tp_alloc =              PyType_GenericAlloc,
-	.tp_new =                DatabaseEnumerator_new,
 	.tp_dealloc =            (destructor)DatabaseEnumerator_dealloc,
 	.tp_iter =               PyObject_SelfIter,
 	.tp_iternext =           (iternextfunc)DatabaseEnumerator_next,
diff --git a/src/python/locationmodule.h b/src/python/locationmodule.h
index 2c13fc4..d483f84 100644
--- a/src/python/locationmodule.h
+++ b/src/python/locationmodule.h
@@ -23,4 +23,15 @@ extern struct loc_ctx* loc_ctx;
 
 const char* PyString_AsUTF8(PyObject* value);
 
+/*
+	Raises an exception if __init__() has not been called (successfully), yet
+*/
+#define RETURN_IF_UNINITIALISED(value, r) \
+	do { \
+		if (!(value)) { \
+			PyErr_SetString(PyExc_ValueError, "Object has not been initialised"); \
+			return r; \
+		} \
+	} while (0)
+
 #endif /* PYTHON_LOCATION_MODULE_H */
diff --git a/src/python/network.c b/src/python/network.c
index 3702942..276d27d 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -68,40 +68,55 @@ static void Network_dealloc(NetworkObject* self) {
 }
 
 static int Network_init(NetworkObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_network* n = NULL;
 	const char* network = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &network))
 		return -1;
 
 	// Load the Network
-	int r = loc_network_new_from_string(loc_ctx, &self->network, network);
+	int r = loc_network_new_from_string(loc_ctx, &n, network);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Invalid network: %s", network);
 		return -1;
 	}
 
+	// Replace any previous network
+	if (self->network)
+		loc_network_unref(self->network);
+
+	self->network = n;
+
 	return 0;
 }
 
 static PyObject* Network_repr(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const char* network = loc_network_str(self->network);
 
 	return PyUnicode_FromFormat("<location.Network %s>", network);
 }
 
 static PyObject* Network_str(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const char* network = loc_network_str(self->network);
 
 	return PyUnicode_FromString(network);
 }
 
 static PyObject* Network_get_country_code(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const char* country_code = loc_network_get_country_code(self->network);
 
 	return PyUnicode_FromString(country_code);
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->network, -1);
+
 	const char* country_code = PyString_AsUTF8(value);
 	if (!country_code)
 		return -1;
@@ -119,6 +134,8 @@ static int Network_set_country_code(NetworkObject* self, PyObject* value) {
 }
 
 static PyObject* Network_get_asn(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	uint32_t asn = loc_network_get_asn(self->network);
 
 	if (asn)
@@ -128,6 +145,8 @@ static PyObject* Network_get_asn(NetworkObject* self) {
 }
 
 static int Network_set_asn(NetworkObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->network, -1);
+
 	if (!value) {
 		PyErr_SetString(PyExc_TypeError, "Attribute cannot be deleted");
 		return -1;
@@ -159,6 +178,8 @@ static int Network_set_asn(NetworkObject* self, PyObject* value) {
 }
 
 static PyObject* Network_has_flag(NetworkObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	enum loc_network_flags flag = 0;
 
 	if (!PyArg_ParseTuple(args, "i", &flag))
@@ -171,6 +192,8 @@ static PyObject* Network_has_flag(NetworkObject* self, PyObject* args) {
 }
 
 static PyObject* Network_set_flag(NetworkObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	enum loc_network_flags flag = 0;
 
 	if (!PyArg_ParseTuple(args, "i", &flag))
@@ -187,11 +210,15 @@ static PyObject* Network_set_flag(NetworkObject* self, PyObject* args) {
 }
 
 static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	NetworkObject* other = NULL;
 
 	if (!PyArg_ParseTuple(args, "O!", &NetworkType, &other))
 		return NULL;
 
+	RETURN_IF_UNINITIALISED(other->network, NULL);
+
 	struct loc_network_list* list = loc_network_exclude(self->network, other->network);
 
 	// Convert to Python objects
@@ -203,11 +230,15 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 }
 
 static PyObject* Network_is_subnet_of(NetworkObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	NetworkObject* other = NULL;
 
 	if (!PyArg_ParseTuple(args, "O!", &NetworkType, &other))
 		return NULL;
 
+	RETURN_IF_UNINITIALISED(other->network, NULL);
+
 	if (loc_network_is_subnet(other->network, self->network))
 		Py_RETURN_TRUE;
 
@@ -215,12 +246,16 @@ static PyObject* Network_is_subnet_of(NetworkObject* self, PyObject* args) {
 }
 
 static PyObject* Network_get_family(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	int family = loc_network_address_family(self->network);
 
 	return PyLong_FromLong(family);
 }
 
 static PyObject* Network_get_first_address(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const char* address = loc_network_format_first_address(self->network);
 
 	return PyUnicode_FromString(address);
@@ -241,24 +276,32 @@ static PyObject* PyBytes_FromAddress(const struct in6_addr* address6) {
 }
 
 static PyObject* Network_get__first_address(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const struct in6_addr* address = loc_network_get_first_address(self->network);
 
 	return PyBytes_FromAddress(address);
 }
 
 static PyObject* Network_get_last_address(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const char* address = loc_network_format_last_address(self->network);
 
 	return PyUnicode_FromString(address);
 }
 
 static PyObject* Network_get__last_address(NetworkObject* self) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	const struct in6_addr* address = loc_network_get_last_address(self->network);
 
 	return PyBytes_FromAddress(address);
 }
 
 static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int op) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	int r;
 
 	// Check for type
@@ -267,6 +310,8 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 
 	NetworkObject* o = (NetworkObject*)other;
 
+	RETURN_IF_UNINITIALISED(o->network, NULL);
+
 	r = loc_network_cmp(self->network, o->network);
 
 	switch (op) {
@@ -296,6 +341,8 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 }
 
 static PyObject* Network_reverse_pointer(NetworkObject* self, PyObject* args, PyObject* kwargs) {
+	RETURN_IF_UNINITIALISED(self->network, NULL);
+
 	char* kwlist[] = { "suffix", NULL };
 	const char* suffix = NULL;
 	char* rp = NULL;
diff --git a/src/python/writer.c b/src/python/writer.c
index 89ce58f..8a9be25 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -64,6 +64,7 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
 	FILE* f2 = NULL;
+	struct loc_writer* writer = NULL;
 
 	// Parse arguments
 	if (!PyArg_ParseTuple(args, "|OO", &private_key1, &private_key2))
@@ -94,7 +95,7 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	}
 
 	// Create the writer object
-	int r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	int r = loc_writer_new(loc_ctx, &writer, f1, f2);
 
 	// The keys have been read
 	if (f1)
@@ -102,16 +103,29 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	if (f2)
 		fclose(f2);
 
-	return r;
+	if (r)
+		return r;
+
+	// Replace any previous writer
+	if (self->writer)
+		loc_writer_unref(self->writer);
+
+	self->writer = writer;
+
+	return 0;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	const char* vendor = loc_writer_get_vendor(self->writer);
 
 	return PyUnicode_FromString(vendor);
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->writer, -1);
+
 	const char* vendor = PyString_AsUTF8(value);
 	if (!vendor)
 		return -1;
@@ -126,12 +140,16 @@ static int Writer_set_vendor(WriterObject* self, PyObject* value) {
 }
 
 static PyObject* Writer_get_description(WriterObject* self) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	const char* description = loc_writer_get_description(self->writer);
 
 	return PyUnicode_FromString(description);
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->writer, -1);
+
 	const char* description = PyString_AsUTF8(value);
 	if (!description)
 		return -1;
@@ -146,12 +164,16 @@ static int Writer_set_description(WriterObject* self, PyObject* value) {
 }
 
 static PyObject* Writer_get_license(WriterObject* self) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	const char* license = loc_writer_get_license(self->writer);
 
 	return PyUnicode_FromString(license);
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
+	RETURN_IF_UNINITIALISED(self->writer, -1);
+
 	const char* license = PyString_AsUTF8(value);
 	if (!license)
 		return -1;
@@ -166,6 +188,8 @@ static int Writer_set_license(WriterObject* self, PyObject* value) {
 }
 
 static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	struct loc_as* as;
 	uint32_t number = 0;
 
@@ -184,6 +208,8 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 }
 
 static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	struct loc_country* country;
 	const char* country_code;
 
@@ -213,6 +239,8 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 }
 
 static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	struct loc_network* network;
 	const char* string = NULL;
 
@@ -242,6 +270,8 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 }
 
 static PyObject* Writer_write(WriterObject* self, PyObject* args) {
+	RETURN_IF_UNINITIALISED(self->writer, NULL);
+
 	const char* path = NULL;
 	int version = LOC_DATABASE_VERSION_UNSET;
 
-- 
2.43.0


From c0ff5631b2d1ffc058572732105beee00a834773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:27 +0000
Subject: [PATCH 097/103] fix: python: Always set an exception when something
 failed

---
 src/python/as.c       |  4 +++-
 src/python/database.c |  1 +
 src/python/writer.c   | 14 +++++++++++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 5ee12ce..b5608cf 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -72,8 +72,10 @@ static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	// Replace any previous AS
 	if (self->as)
diff --git a/src/python/database.c b/src/python/database.c
index bc33d0f..da98891 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -202,6 +202,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Unexpected error
+	PyErr_SetFromErrno(PyExc_OSError);
 	return NULL;
 }
 
diff --git a/src/python/writer.c b/src/python/writer.c
index 8a9be25..1e3969b 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -103,8 +103,10 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	if (f2)
 		fclose(f2);
 
-	if (r)
-		return r;
+	if (r) {
+		PyErr_SetString(PyExc_ValueError, "Could not create the writer");
+		return -1;
+	}
 
 	// Replace any previous writer
 	if (self->writer)
@@ -198,8 +200,10 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 
 	// Create AS object
 	int r = loc_writer_add_as(self->writer, &as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
+	}
 
 	PyObject* obj = new_as(&ASType, as);
 	loc_as_unref(as);
@@ -258,6 +262,10 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 			case -EBUSY:
 				PyErr_SetString(PyExc_IndexError, "A network already exists here");
 				break;
+
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From 0f5d58d88026211fee77fd02ca22be9cb54f9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:59 +0000
Subject: [PATCH 098/103] fix: lua: Raise errors when objects have been
 finalized

---
 src/lua/as.c       |  5 ++++-
 src/lua/country.c  |  5 ++++-
 src/lua/database.c | 13 +++++++++++--
 src/lua/network.c  |  5 ++++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 95c475d..6047335 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -38,6 +38,9 @@ static AS* luaL_checkas(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "AS expected");
 
+	// Throw an error if the object has already been finalized
+	luaL_argcheck(L, ((AS*)userdata)->as, i, "AS has been closed");
+
 	return (AS*)userdata;
 }
 
@@ -85,7 +88,7 @@ static int AS_new(lua_State* L) {
 }
 
 static int AS_gc(lua_State* L) {
-	AS* self = luaL_checkas(L, 1);
+	AS* self = (AS*)luaL_checkudata(L, 1, "location.AS");
 
 	// Free AS
 	if (self->as) {
diff --git a/src/lua/country.c b/src/lua/country.c
index 816bd2f..5e5d12a 100644
--- a/src/lua/country.c
+++ b/src/lua/country.c
@@ -37,6 +37,9 @@ static Country* luaL_checkcountry(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "Country expected");
 
+	// Throw an error if the object has already been finalized
+	luaL_argcheck(L, ((Country*)userdata)->country, i, "Country has been closed");
+
 	return (Country*)userdata;
 }
 
@@ -74,7 +77,7 @@ static int Country_new(lua_State* L) {
 }
 
 static int Country_gc(lua_State* L) {
-	Country* self = luaL_checkcountry(L, 1);
+	Country* self = (Country*)luaL_checkudata(L, 1, "location.Country");
 
 	// Free country
 	if (self->country) {
diff --git a/src/lua/database.c b/src/lua/database.c
index 5ff56e1..27de17e 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -39,6 +39,9 @@ static Database* luaL_checkdatabase(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "Database expected");
 
+	// Throw an error if the object has already been finalized
+	luaL_argcheck(L, ((Database*)userdata)->db, i, "Database has been closed");
+
 	return (Database*)userdata;
 }
 
@@ -76,7 +79,7 @@ static int Database_open(lua_State* L) {
 }
 
 static int Database_gc(lua_State* L) {
-	Database* self = luaL_checkdatabase(L, 1);
+	Database* self = (Database*)luaL_checkudata(L, 1, "location.Database");
 
 	// Free database
 	if (self->db) {
@@ -239,11 +242,14 @@ static DatabaseEnumerator* luaL_checkdatabaseenumerator(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "DatabaseEnumerator expected");
 
+	// Throw an error if the object has already been finalized
+	luaL_argcheck(L, ((DatabaseEnumerator*)userdata)->e, i, "DatabaseEnumerator has been closed");
+
 	return (DatabaseEnumerator*)userdata;
 }
 
 static int DatabaseEnumerator_gc(lua_State* L) {
-	DatabaseEnumerator* self = luaL_checkdatabaseenumerator(L, 1);
+	DatabaseEnumerator* self = (DatabaseEnumerator*)luaL_checkudata(L, 1, "location.DatabaseEnumerator");
 
 	if (self->e) {
 		loc_database_enumerator_unref(self->e);
@@ -285,6 +291,9 @@ static int Database_list_networks(lua_State* L) {
 
 	// Allocate a new enumerator
 	e = lua_newuserdata(L, sizeof(*e));
+	e->e = NULL;
+
+	// Set metatable
 	luaL_setmetatable(L, "location.DatabaseEnumerator");
 
 	// Create a new enumerator
diff --git a/src/lua/network.c b/src/lua/network.c
index 2da6a1d..1efa07b 100644
--- a/src/lua/network.c
+++ b/src/lua/network.c
@@ -37,6 +37,9 @@ static Network* luaL_checknetwork(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "Network expected");
 
+	// Throw an error if the object has already been finalized
+	luaL_argcheck(L, ((Network*)userdata)->network, i, "Network has been closed");
+
 	return (Network*)userdata;
 }
 
@@ -74,7 +77,7 @@ static int Network_new(lua_State* L) {
 }
 
 static int Network_gc(lua_State* L) {
-	Network* self = luaL_checknetwork(L, 1);
+	Network* self = (Network*)luaL_checkudata(L, 1, "location.Network");
 
 	// Free the network
 	if (self->network) {
-- 
2.43.0


From 975c25279e296228a23ba25afda5fb0bf29b0739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:44 +0000
Subject: [PATCH 099/103] fix: perl: Only accept references that are databases

---
 src/perl/Location.xs | 3 ++-
 src/perl/typemap     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index fcef9bc..151c9e8 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -341,7 +341,8 @@ DESTROY(db)
 
 	CODE:
 		// Close database (once)
-		if (SvROK(db) && SvIOK(SvRV(db)) && SvIV(SvRV(db))) {
+		if (sv_isobject(db) && sv_derived_from(db, "Location")
+				&& SvIOK(SvRV(db)) && SvIV(SvRV(db))) {
 			loc_database_unref(INT2PTR(struct loc_database*, SvIV(SvRV(db))));
 
 			sv_setiv(SvRV(db), 0);
diff --git a/src/perl/typemap b/src/perl/typemap
index 3a5e398..01a363e 100644
--- a/src/perl/typemap
+++ b/src/perl/typemap
@@ -3,7 +3,8 @@ struct loc_database * T_LOC_DATABASE
 
 INPUT
 T_LOC_DATABASE
-	if (SvROK($arg) && SvIOK(SvRV($arg)) && SvIV(SvRV($arg))) {
+	if (sv_isobject($arg) && sv_derived_from($arg, \"Location\")
+			&& SvIOK(SvRV($arg)) && SvIV(SvRV($arg))) {
 		$var = INT2PTR($type, SvIV(SvRV($arg)));
 	} else
 		croak(\"%s: %s is not an open database\", ${$ALIAS?\q[GvNAME(CvGV(cv))]:\qq[\"$pname\"]}, \"$var\");
-- 
2.43.0


From 2d048bc7d1e77d1852c285cf84f165c16216acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:47 +0000
Subject: [PATCH 100/103] fix: database: Tell errors apart from unknown ASes

loc_database_get_as() returns one if an AS could not be found, but it
did that as well when it could not be read (e.g. because memory ran
out), too.
---
 src/database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index a48d4a3..55442ec 100644
--- a/src/database.c
+++ b/src/database.c
@@ -793,8 +793,10 @@ LOC_EXPORT int loc_database_get_as(struct loc_database* db, struct loc_as** as,
 
 		// Fetch AS in the middle between lo and hi
 		int r = loc_database_fetch_as(db, as, i);
+
+		// Do not return anything positive as this means that nothing was found
 		if (r)
-			return r;
+			return -1;
 
 		// Check if this is a match
 		uint32_t as_number = loc_as_get_number(*as);
-- 
2.43.0


From 3ff6306bc91db4a14b970edc89798ebd4d4ee0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 101/103] fix: python: Raise exceptions when memory has run out

Network.exclude() returned an empty list, Database.search_as() returned
all ASes, and Database.search_networks() released an uninitialised pointer.
---
 src/python/database.c | 12 ++++++++++--
 src/python/network.c  | 22 +++++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index da98891..4082c6c 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -331,7 +331,12 @@ static PyObject* Database_search_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Search string we are searching for
-	loc_database_enumerator_set_string(enumerator, string);
+	r = loc_database_enumerator_set_string(enumerator, string);
+	if (r) {
+		PyErr_SetFromErrno(PyExc_SystemError);
+		loc_database_enumerator_unref(enumerator);
+		return NULL;
+	}
 
 	PyObject* obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
 	loc_database_enumerator_unref(enumerator);
@@ -389,6 +394,10 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
+			if (!country_code) {
+				loc_country_list_unref(countries);
+				goto ERROR;
+			}
 
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
@@ -458,7 +467,6 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetFromErrno(PyExc_OSError);
 
 				loc_as_list_unref(asns);
-				loc_as_unref(as);
 				goto ERROR;
 			}
 
diff --git a/src/python/network.c b/src/python/network.c
index 276d27d..9e02704 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -29,20 +29,29 @@
 
 static PyObject* PyList_FromNetworkList(struct loc_network_list* networks) {
 	PyObject* list = PyList_New(0);
-	if (!networks)
+	if (!list || !networks)
 		return list;
 
 	while (!loc_network_list_empty(networks)) {
 		struct loc_network* network = loc_network_list_pop(networks);
 
 		PyObject* n = new_network(&NetworkType, network);
-		PyList_Append(list, n);
-
 		loc_network_unref(network);
+		if (!n)
+			goto ERROR;
+
+		int r = PyList_Append(list, n);
 		Py_DECREF(n);
+		if (r)
+			goto ERROR;
 	}
 
 	return list;
+
+ERROR:
+	Py_DECREF(list);
+
+	return NULL;
 }
 
 PyObject* new_network(PyTypeObject* type, struct loc_network* network) {
@@ -220,11 +229,14 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 	RETURN_IF_UNINITIALISED(other->network, NULL);
 
 	struct loc_network_list* list = loc_network_exclude(self->network, other->network);
+	if (!list) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	// Convert to Python objects
 	PyObject* obj = PyList_FromNetworkList(list);
-	if (list)
-		loc_network_list_unref(list);
+	loc_network_list_unref(list);
 
 	return obj;
 }
-- 
2.43.0


From f92768bd86b1d449e024e1c79508801c430564cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:58 +0000
Subject: [PATCH 102/103] fix: perl: Do not continue without a context

---
 src/perl/Location.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 151c9e8..b0d458f 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -22,7 +22,7 @@ init(file)
 
 		// Initialise location context
 		int err = loc_new(&ctx);
-		if (err < 0)
+		if (err)
 			croak("Could not initialize libloc context: %d\n", err);
 
 		// Open the database file for reading
-- 
2.43.0


From 3979c8aba132fcfe0b095f2c37265676130c05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 103/103] fix: stringpool: Refuse strings that the database
 format cannot address

---
 src/stringpool.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stringpool.c b/src/stringpool.c
index eaa4a1d..8ab4588 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -16,6 +16,7 @@
 
 #include <errno.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -73,6 +74,13 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 	// How much space to we need?
 	const size_t length = strlen(string) + 1;
 
+	// The database format cannot address anything beyond 4 GiB
+	if (length > UINT32_MAX - (size_t)pool->length) {
+		ERROR(pool->ctx, "The string pool is full\n");
+		errno = ENOSPC;
+		return -1;
+	}
+
 	// Make sure we have enough space
 	if (pool->length + length > pool->size) {
 		// Strings might be longer than one block
-- 
2.43.0

