/* Commands on pdstor objects (P10) and hashes (P09). */
#define NSTOR 16
static pd_stor_t *ST[NSTOR];
static const pd_equivalence_t EQ[3] = {NONE, ISOMORPHISM, DIAGRAM_ISOTOPY};

static void put_list(pd_stor_t *s) {
  vput("[");
  if (s && pd_stor_nelts(s) > 0) {
    int first = 1;
    for (pd_code_t *pd = pd_stor_firstelt(s); pd; pd = pd_stor_nextelt(s)) { if (!first) vput(","); first = 0; put_pd(pd); pd_code_free(&pd); }
  } else if (s) { pd_code_t *pd = pd_stor_firstelt(s); if (pd) put_pd(pd); }
  vput("]");
}
static void put_stats(pd_stor_t *s) {
  unsigned int nh = 0, ne = 0;
  pd_stor_stats(s, &nh, &ne);
  vput(",\"nelts\":%u,\"st\":[%u,%u]", pd_stor_nelts(s), ne, nh);
}
static void read_into(const char *file, int j, int eq) {
  FILE *f = fopen(file, "r"); pd_stor_t *s = pd_read_pdstor(f, EQ[eq]); fclose(f);
  vput(",\"null\":%d,\"list\":", s == NULL); put_list(s);
  if (s) put_stats(s); else vput(",\"nelts\":0,\"st\":[0,0]");
  if (j >= 0) { if (ST[j]) pd_free_pdstor(&ST[j]); ST[j] = s; } else if (s) pd_free_pdstor(&s);
}
static void write_store(const char *file, pd_stor_t *s) { FILE *f = fopen(file, "w"); pd_write_pdstor(f, s); fclose(f); }

static bool store_command(void) {
  long S[16]; int i = ti(1);
  if (!strcmp(tok[0], "hash")) {         /* hash a b: the spec looks at the two registers */
    S[0] = ti(1); S[1] = ti(2); ev_begin("hash"); ev_srcs(-1, 2, S); ev_end();
  } else if (!strcmp(tok[0], "rehash")) { /* the same diagram built afresh from crossings and edges alone */
    pd_code_t *p = R[i]; S[0] = i;
    if (p->ncross == 0) return true;
    pd_code_t *q = pd_code_new(p->ncross);
    q->ncross = p->ncross; q->nedges = p->nedges;
    for (pd_idx_t k = 0; k < p->ncross; k++) q->cross[k] = p->cross[k];
    for (pd_idx_t k = 0; k < p->nedges; k++) q->edge[k] = p->edge[k];
    pd_regenerate(q);
    ev_begin("rehash"); ev_srcs(-1, 1, S); ev_out(1, &q); ev_end(); pd_code_free(&q);
  } else if (!strcmp(tok[0], "snew")) {
    if (ST[i]) pd_free_pdstor(&ST[i]);
    ST[i] = pd_new_pdstor();
    ev_begin("snew"); vput(",\"i\":%d", i); put_stats(ST[i]); vput(",\"list\":"); put_list(ST[i]); ev_end();
  } else if (!strcmp(tok[0], "sfree")) {
    pd_free_pdstor(&ST[i]);
    ev_begin("sfree"); vput(",\"i\":%d,\"null\":%d", i, ST[i] == NULL); ev_end();
  } else if (!strcmp(tok[0], "sadd")) {  /* sadd i r eq */
    int r = ti(2), eq = ti(3);
    pd_addto_pdstor(ST[i], R[r], EQ[eq]);
    ev_begin("sadd"); vput(",\"i\":%d,\"r\":%d,\"eq\":%d", i, r, eq); ev_out(1, &R[r]); put_stats(ST[i]);
    vput(",\"elt\":["); int first = 1;
    for (pd_code_t *pd = pd_stor_firstelt(ST[i]); pd; pd = pd_stor_nextelt(ST[i])) {
      if (!strcmp(pd->hash, R[r]->hash) && pd->uid == R[r]->uid) { if (!first) vput(","); first = 0; put_pd(pd); }
      pd_code_free(&pd);
    }
    vput("]"); ev_end();
  } else if (!strcmp(tok[0], "slist")) {
    ev_begin("slist"); vput(",\"i\":%d", i); put_stats(ST[i]); vput(",\"list\":"); put_list(ST[i]); ev_end();
  } else if (!strcmp(tok[0], "sfind")) { /* sfind i r */
    int r = ti(2); S[0] = r; pd_iso_t **isos = NULL; unsigned int n = 77; watch(R[r]);
    pd_code_t *o = pd_search_pdstor_by_isomorphism(ST[i], R[r], &isos, &n);
    ev_begin("sfind"); vput(",\"i\":%d", i); ev_srcs(-1, 1, S); ev_same(); ev_out(1, &o); vput(",\"n\":%u,\"isos\":[", n);
    if (R[r]->ncross) for (unsigned int k = 0; k < n; k++) { if (k) vput(","); put_iso(isos[k]); }
    vput("]"); ev_end();
    if (n) pd_free_isos(&n, &isos);
    if (o) pd_code_free(&o);
  } else if (!strcmp(tok[0], "sdisp")) {
    FILE *f = fopen("d.txt", "w"); pd_display_pdstor(f, ST[i]); fclose(f);
    char *t = slurp("d.txt"); ev_begin("sdisp"); vput(",\"i\":%d,\"text\":", i); put_tokens(t); ev_end(); free(t);
  } else if (!strcmp(tok[0], "srt")) {   /* srt i j eq: written to a file and read back */
    int j = ti(2), eq = ti(3);
    write_store("s.pds", ST[i]);
    char *t = slurp("s.pds"); long a = -1, b = -1, c = -1;
    sscanf(t, "pdstor nelts %ld/%ld (claimed/actual) nhashes %ld", &a, &b, &c); free(t);
    ev_begin("srt"); vput(",\"i\":%d,\"j\":%d,\"eq\":%d,\"hdr\":[%ld,%ld,%ld]", i, j, eq, a, b, c); read_into("s.pds", j, eq); ev_end();
  } else if (!strcmp(tok[0], "sinc")) {  /* sinc j eq finish i1 i2 .. */
    int j = ti(1), eq = ti(2), fin = ti(3), k = ntok - 4; unsigned int nh = 0, ne = 0;
    FILE *f = fopen("i.pds", "w+"); pd_start_incremental_pdstor(f);
    for (int q = 0; q < k; q++) { S[q] = ti(4 + q); pd_addto_incremental_pdstor(f, ST[S[q]], &nh, &ne); }
    if (fin) pd_finish_incremental_pdstor(f, nh, ne);
    fclose(f);
    ev_begin("sinc"); vput(",\"j\":%d,\"eq\":%d,\"fin\":%d,\"tot\":[%u,%u]", j, eq, fin, ne, nh); ev_ints("s", k, S); read_into("i.pds", j, eq); ev_end();
  } else if (!strcmp(tok[0], "shdr")) {  /* shdr i eq header: the header line replaced */
    int eq = ti(2); write_store("h0", ST[i]); char *t = slurp("h0");
    char *nl = strchr(t, '\n'); nl = nl ? strchr(nl + 1, '\n') : NULL;
    FILE *f = fopen("h1", "w"); fputs(pct(tok[4]), f); if (nl) fputs(nl, f); fclose(f); free(t);
    ev_begin("shdr"); vput(",\"i\":%d,\"eq\":%d,\"kind\":\"%s\"", i, eq, tok[3]); read_into("h1", -1, eq); ev_end();
  } else if (!strcmp(tok[0], "scut")) {  /* scut i eq bytes permille: the file is cut / a byte is changed */
    int eq = ti(2); write_store("c0", ST[i]); char *t = slurp("c0"); size_t n = strlen(t), at = n * ti(3) / 1000;
    if (ti(4)) { if (at < n) t[at] = (char)ti(4); } else t[at] = 0;
    FILE *f = fopen("c1", "w"); fputs(t, f); fclose(f); free(t);
    ev_begin("scut"); vput(",\"i\":%d,\"eq\":%d,\"at\":%ld", i, eq, ti(3)); read_into("c1", -1, eq); ev_end();
  } else return false;
  return true;
}
