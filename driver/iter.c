/* Conformance driver for the group iterators: permutations, dihedral, cyclic, orientations, multi-indices. */
#include <plCurve.h>
#include <plcTopology.h>
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_dihedral.h"
#include "pd_cyclic.h"
#include "pd_orientation.h"
#include "vdrv.h"
#define NR 16
static struct { char k; char of; void *p; } R[NR];     /* k: p d c o m */
static pd_iterops_t *ops(char k) { return k == 'p' ? &perm_ops : k == 'd' ? &dihedral_ops : k == 'c' ? &cyclic_ops : &orientation_ops; }
static void put_map(pd_idx_t n, pd_idx_t *m) { vput("["); for (pd_idx_t i = 0; i < n; i++) vput("%s%u", i ? "," : "", m[i]); vput("]"); }
static void put_val(char k, void *p) {
  if (k == 'p') { pd_perm_t *x = p; vput("{\"k\":\"p\",\"o\":2,\"m\":"); put_map(x->n, x->map); vput("}"); }
  else if (k == 'd') { pd_dihedral_t *x = p; vput("{\"k\":\"d\",\"o\":%d,\"m\":", (int)x->orient); put_map(x->n, x->map); vput("}"); }
  else if (k == 'c') { pd_cyclic_t *x = p; vput("{\"k\":\"c\",\"o\":2,\"m\":"); put_map(x->n, x->map); vput("}"); }
  else { pd_orientation_t *x = p; vput("{\"k\":\"o\",\"o\":%d,\"m\":[]}", (int)x->orient); }
}
static void put_reg(int r) {
  if (R[r].k != 'm') { vput("["); put_val(R[r].k, R[r].p); vput("]"); return; }
  pd_multidx_t *x = R[r].p; vput("["); for (pd_idx_t i = 0; i < x->nobj; i++) { if (i) vput(","); put_val(R[r].of, x->obj[i]); } vput("]");
}
static unsigned nvals(int r) { return R[r].k == 'm' ? pd_multidx_nvals(R[r].p) : ops(R[r].k)->nvals(R[r].p); }
static int ok(int r) { return R[r].k == 'm' ? pd_multidx_ok(R[r].p) : ops(R[r].k)->ok(R[r].p); }
static void freereg(int r) { if (!R[r].p) return; if (R[r].k == 'm') pd_free_multidx((pd_multidx_t **)&R[r].p); else ops(R[r].k)->free(&R[r].p); R[r].p = NULL; }
static void beg(const char *op, int r) { vreset(); vput("{\"op\":\"%s\",\"r\":%d", op, r); }
static void fin(int r) { vput(",\"val\":"); put_reg(r); vput(",\"ok\":%d,\"nv\":%u}", ok(r), nvals(r)); vflush(); }
static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static void run_command(void) {
  char *c = tok[0]; int r = ti(1), s = ti(2), t = ti(3);
  if (!strcmp(c, "new")) {             /* new r kind n */
    pd_idx_t n = ti(3); freereg(r); R[r].k = tok[2][0]; R[r].p = ops(R[r].k)->new(&n);
    beg("new", r); vput(",\"k\":\"%s\",\"n\":[%u]", tok[2], n); fin(r);
  } else if (!strcmp(c, "multi")) {    /* multi r kind n1 n2 ... */
    freereg(r); int m = ntok - 3; pd_idx_t *n = calloc(m + 1, sizeof *n), **d = calloc(m + 1, sizeof *d);
    for (int i = 0; i < m; i++) { n[i] = ti(3 + i); d[i] = &n[i]; }
    R[r].k = 'm'; R[r].of = tok[2][0]; R[r].p = pd_new_multidx(m, (void **)d, *ops(R[r].of));
    beg("new", r); vput(",\"k\":\"%s\",\"n\":[", tok[2]); for (int i = 0; i < m; i++) vput("%s%u", i ? "," : "", n[i]); vput("]"); fin(r);
    free(n); free(d);
  } else if (!strcmp(c, "incr")) {     /* incr r times */
    for (int i = 0; i < (s ? s : 1); i++) {
      if (R[r].k == 'm') pd_increment_multidx(R[r].p); else ops(R[r].k)->incr(R[r].p);
      beg("incr", r); fin(r);
    }
  } else if (!strcmp(c, "cycle")) {    /* cycle r: as many increments as it says there are values */
    unsigned n = nvals(r);
    for (unsigned i = 0; i < n; i++) { if (R[r].k == 'm') pd_increment_multidx(R[r].p); else ops(R[r].k)->incr(R[r].p); beg("incr", r); fin(r); }
    beg("home", r); fin(r);
  } else if (!strcmp(c, "copy")) {     /* copy r s */
    if (r == s) return;
    freereg(r); R[r].k = R[s].k; R[r].of = R[s].of;
    R[r].p = R[s].k == 'm' ? (void *)pd_copy_multidx(R[s].p) : ops(R[s].k)->copy(R[s].p);
    beg("copy", r); vput(",\"s\":[%d]", s); fin(r);
  } else if (!strcmp(c, "comp")) {     /* comp r s t */
    void *o = pd_compose_perms(R[s].p, R[t].p); freereg(r); R[r].k = 'p'; R[r].p = o;
    beg("comp", r); vput(",\"s\":[%d,%d]", s, t); fin(r);
  } else if (!strcmp(c, "inv")) {
    void *o = pd_inverse_perm(R[s].p); freereg(r); R[r].k = 'p'; R[r].p = o;
    beg("inv", r); vput(",\"s\":[%d]", s); fin(r);
  } else if (!strcmp(c, "star")) {     /* star r s: r *= s */
    pd_stareq_perm(R[r].p, R[s].p);
    beg("star", r); vput(",\"s\":[%d]", s); fin(r);
  } else if (!strcmp(c, "period")) {
    unsigned v = pd_perm_period(R[r].p);
    beg("period", r); vput(",\"v\":%u,\"e\":%d", v, pd_perm_is_e(R[r].p)); fin(r);
  } else if (!strcmp(c, "cmp")) {      /* cmp r s */
    int v = R[r].k == 'm' ? pd_multidx_cmp(&R[r].p, &R[s].p) : ops(R[r].k)->cmp(&R[r].p, &R[s].p);
    beg("cmp", r); vput(",\"s\":[%d],\"v\":%d,\"eq\":%d", s, sgn(v), R[r].k == 'p' ? pd_perms_eq(R[r].p, R[s].p) : v == 0); fin(r);
  } else if (!strcmp(c, "uniq")) {     /* uniq kind r1 r2 ...: are the values all different? */
    int m = ntok - 2, v; char k = tok[1][0]; void **b = malloc(m * sizeof *b);
    for (int i = 0; i < m; i++) b[i] = R[ti(2 + i)].p;
    v = k == 'm' ? pd_multidxs_unique(m, (pd_multidx_t **)b) : k == 'p' ? pd_perms_unique(m, (pd_perm_t **)b) : k == 'd' ? pd_dihedrals_unique(m, (pd_dihedral_t **)b) : k == 'c' ? pd_cyclics_unique(m, (pd_cyclic_t **)b) : pd_orientations_unique(m, (pd_orientation_t **)b);
    free(b);
    r = ti(2); beg("uniq", r); vput(",\"v\":%d,\"s\":[", v); for (int i = 0; i < m; i++) vput("%s%ld", i ? "," : "", ti(2 + i)); vput("]"); fin(r);
  } else if (!strcmp(c, "print")) {    /* what the printed form says: kind of form and its numbers, cycle by cycle */
    char *b = ops(R[r].k)->print(R[r].p), *p = b; int first = 1, open = 0; char f = '?';
    if (!strncmp(b, "rot ", 4)) f = 'r'; else if (!strncmp(b, "ref ", 4)) f = 's'; else if (!strncmp(b, "or ", 3)) f = 'o'; else if (b[0] == '(' || !strcmp(b, "e") || b[0] == 'I') f = '('; else if (b[0] == '[') f = '[';
    beg("print", r); vput(",\"f\":\"%c\",\"cyc\":[", f);
    if (f == 'r' || f == 's') vput("[%ld]", strtol(b + 4, NULL, 10));
    else if (f == 'o') vput("[%d]", b[3] == '+' ? 1 : b[3] == '-' ? 0 : 2);
    else if (f == '(') { int fn = 1; for (; *p; ) { if (*p == '(') { vput("%s[", first ? "" : ","); first = 0; open = 1; fn = 1; p++; } else if (*p == ')') { vput("]"); open = 0; p++; } else if (*p >= '0' && *p <= '9') { vput("%s%ld", fn ? "" : ",", strtol(p, &p, 10)); fn = 0; } else p++; } if (open) vput("]"); }
    vput("],\"open\":%d", open); free(b); fin(r);
  }
}
static void episode_reset(void) { memset(R, 0, sizeof R); }
