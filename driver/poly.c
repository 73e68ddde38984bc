/* Conformance driver for polynomials and their notations (src/polynomials.h). */
#include "vdrv.h"
#include "plcTopology.h"
#include "polynomials.h"
static int is(const char *s) { return !strcmp(tok[0], s); }
static void episode_reset(void) {}
#define MOD 30011L
static int at;
static homfly_polynomial_t *read_poly(void) {
  homfly_polynomial_t *p = calloc(1, sizeof *p); p->nmonomials = (int)ti(at++); p->mono = malloc(p->nmonomials * sizeof *p->mono);
  for (int i = 0; i < p->nmonomials; i++) { p->mono[i].l = (int)ti(at++); p->mono[i].m = (int)ti(at++); p->mono[i].coeff = ti(at++); }
  return p;
}
static void put_poly(const char *name, homfly_polynomial_t *p) {
  vput(",\"%s\":[", name);
  for (int i = 0; p && i < p->nmonomials; i++) {
    long c = p->mono[i].coeff, small = labs(c) < 1900000000L ? c : 2000000000L;
    vput("%s{\"l\":%d,\"m\":%d,\"neg\":%d,\"abs\":\"%ld\",\"s\":\"%ld\",\"c\":%ld,\"r\":%ld}", i ? "," : "", p->mono[i].l, p->mono[i].m, c < 0, labs(c), c, small, ((c % MOD) + MOD) % MOD);
  }
  vput("]");
}
static void put_text(const char *name, const char *s) { vput(",\"%s\":", name); if (s) vstr(s); else vput("\"(null)\""); }
static void run_command(void) {
  at = 1;
  if (is("forms")) {
    homfly_polynomial_t *A = read_poly(), *B;
    vput("{\"op\":\"forms\""); put_poly("a", A);
    char *kt = malloc(80 * A->nmonomials + 1), *w = kt;
    for (int i = 0; i < A->nmonomials; i++) w += sprintf(w, "%s%ld a^%d z^%d", i ? " + " : "", (long)A->mono[i].coeff, A->mono[i].l, A->mono[i].m);
    put_text("kt", kt);
    char *t = poly_to_latex(A); put_text("latex", t); free(t);
    t = poly_to_mathematica(A); put_text("math", t); free(t);
    char *lm = polynomial_to_lmpoly(A->mono, A->nmonomials); put_text("lm", lm);
    char *keep = strdup(lm);
    B = lmpoly_to_polynomial(lm); put_poly("back", B); homfly_polynomial_free(&B);
    t = lmpoly_check(lm); put_text("again", t); free(t);
    t = lmpoly_to_latex(lm); put_text("lmlatex", t); free(t);
    t = lmpoly_to_mathematica(lm); put_text("lmmath", t); free(t);
    if (strcmp(keep, lm)) put_text("changed", lm);
    B = KnotTheory_to_polynomial(kt); put_poly("ktback", B); homfly_polynomial_free(&B);
    put_poly("after", A); homfly_polynomial_free(&A); if (A) vput(",\"kept\":1");
    free(lm); free(keep); free(kt);
  } else if (is("text")) {
    homfly_polynomial_t *A = read_poly(), *B; long pad[4]; for (int i = 0; i < 4; i++) pad[i] = ti(at++);
    char *s = pct(tok[at]);
    vput("{\"op\":\"text\",\"pad\":[%ld,%ld,%ld,%ld]", pad[0], pad[1], pad[2], pad[3]); put_poly("a", A); put_text("text", s);
    char *x = strdup(s); B = lmpoly_to_polynomial(x); put_poly("back", B); homfly_polynomial_free(&B);
    char *t = lmpoly_check(x); put_text("again", t); free(t);
    t = lmpoly_to_latex(x); put_text("latex", t); free(t); free(x); homfly_polynomial_free(&A);
  } else if (is("prod")) {
    homfly_polynomial_t *A = read_poly(), *B = read_poly(), *P;
    vput("{\"op\":\"prod\",\"q\":%ld", MOD); put_poly("a", A); put_poly("b", B);
    P = product_polynomial(A, B); put_poly("p", P); homfly_polynomial_free(&P);
    vput(",\"eqab\":%d,\"eqba\":%d", polynomials_eq(A, B), polynomials_eq(B, A));
    put_poly("aafter", A); put_poly("bafter", B); homfly_polynomial_free(&A); homfly_polynomial_free(&B);
  } else { fprintf(stderr, "unknown command %s\n", tok[0]); exit(2); }
  vput("}"); vflush();
}
