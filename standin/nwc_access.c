/* The members of a wallet connection, whose layout the library keeps to itself. Every other symbol of this object is made local. */
#include "nip47.c"
void vf_conn(const struct nwc_connection* c, char*** relays, size_t* n, const uint8_t** secret, const uint8_t** service, const char** lud16) { *relays = c->relays; *n = c->relay_count; *secret = c->secret.data; *service = c->service_pubkey.data; *lud16 = c->lud16; }
