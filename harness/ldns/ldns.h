/* Stands in for the ldns library, which is not installed: the part of it that libmy/zonefile.c uses, over a small zone file syntax. */
#ifndef LDNS_STANDIN_H
#define LDNS_STANDIN_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef enum { LDNS_STATUS_OK, LDNS_STATUS_ERR, LDNS_STATUS_SYNTAX_ERR, LDNS_STATUS_SYNTAX_TTL, LDNS_STATUS_SYNTAX_ORIGIN, LDNS_STATUS_SYNTAX_EMPTY } ldns_status;
typedef enum { LDNS_RR_TYPE_A = 1, LDNS_RR_TYPE_SOA = 6 } ldns_rr_type;
typedef struct { char *text; } ldns_rdf;
typedef struct { ldns_rdf *owner; uint32_t ttl; ldns_rr_type type; size_t n; ldns_rdf *rdf[3]; } ldns_rr;

ldns_status ldns_rr_new_frm_fp_l(ldns_rr **, FILE *, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr);
ldns_rr_type ldns_rr_get_type(const ldns_rr *);
void ldns_rr_free(ldns_rr *);
ldns_rdf *ldns_rdf_clone(const ldns_rdf *);
void ldns_rdf_deep_free(ldns_rdf *);
ldns_rdf *ldns_rr_owner(const ldns_rr *);
ldns_rdf *ldns_rr_rdf(const ldns_rr *, size_t);
uint32_t ldns_rdf2native_int32(const ldns_rdf *);
/* not used today */
ldns_status ldns_rr_new_frm_fp(ldns_rr **, FILE *, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev);
ldns_rr *ldns_rr_clone(const ldns_rr *);
uint32_t ldns_rr_ttl(const ldns_rr *);
size_t ldns_rr_rd_count(const ldns_rr *);
int ldns_rdf_compare(const ldns_rdf *, const ldns_rdf *);
#endif
