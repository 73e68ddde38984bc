/* VECT files: writing, reading, damaged files */

static int numtok(const char *s, double *v, int *isint) {
  char *e; *v = strtod(s, &e); if (*e || e == s) return 0;
  const char *p = s; if (*p == '+' || *p == '-') p++;
  *isint = *p != 0 && strspn(p, "0123456789") == strlen(p) && fabs(*v) < 1e9;
  return 1;
}
/* items of a text: numbers {"t":"n"}, other words {"t":"w"}, words of comments {"t":"c"}, ends of lines of comments {"t":"e"} */
static void put_items(const char *text) {
  vput("["); int first = 1; const char *p = text;
  while (*p) {
    const char *e = strchr(p, '\n'); size_t n = e ? (size_t)(e - p) : strlen(p);
    char *line = strndup(p, n), *cm = strchr(line, '#'), *sv;
    if (cm) *cm++ = 0;
    for (int part = 0; part < 2; part++) {
      char *src = part ? cm : line; if (!src) continue;
      if (part) { vput("%s{\"t\":\"#\",\"s\":\"\",\"g\":0,\"z\":0}", first ? "" : ","); first = 0; }
      for (char *t = strtok_r(src, " \t\r\v\f", &sv); t; t = strtok_r(NULL, " \t\r\v\f", &sv)) {
        double v = 0; int z = 0, isn = numtok(t, &v, &z);
        vput("%s{\"t\":\"%s\",\"s\":", first ? "" : ",", part ? (isn ? "d" : "c") : (isn ? "n" : "w")); first = 0;
        const char *w = t; size_t tl = strlen(t);      /* words the format gives a meaning to, wherever they occur in a token */
        int murky = !isn && !part && strchr("+-.0123456789iInN", t[0]) != NULL;
        if (!isn && !part && !strncmp(t, "VECT", 4) && tl > 4) murky = 1;
        if (!isn && part) {
          if (tl >= 10 && !strcmp(t + tl - 10, "Constraint")) w = "Constraint";
          else if (tl >= 4 && !strcmp(t + tl - 4, "Cst:")) w = "Cst:";
          else if (strstr(t, "Fixed")) w = "Fixed"; else if (strstr(t, "Line")) w = "Line"; else if (strstr(t, "Plane")) w = "Plane";
          murky = strchr("+-.0123456789iInN", t[0]) != NULL;
        }
        if (murky) z = 2;
        vstr(isn ? "" : w);
        vput(",\"g\":%ld,\"z\":%d}", isn ? (z ? (long)(fabs(v) < 2e9 ? v : 2000000000) : grid(v)) : 0, z);
      }
    }
    free(line);
    if (!e) break;
    p = e + 1;
  }
  vput("]");
}
static void put_16(plCurve *L) {            /* everything in the file, as written with 16 digits */
  vput("["); int first = 1; char b[64];
#define P16(x) do { snprintf(b, sizeof b, "%.16g", (x)); vput("%s\"%s\"", first ? "" : ",", b); first = 0; } while (0)
  for (int i = 0; i < L->nc; i++) {
    for (int j = 0; j < L->cp[i].nv; j++) for (int k = 0; k < 3; k++) P16(L->cp[i].vt[j].c[k]);
    for (int j = 0; j < L->cp[i].cc; j++) { P16(L->cp[i].clr[j].r); P16(L->cp[i].clr[j].g); P16(L->cp[i].clr[j].b); P16(L->cp[i].clr[j].alpha); }
  }
  for (plc_constraint *q = L->cst; q; q = q->next) for (int k = 0; k < 3; k++) { P16(q->vect[0].c[k]); P16(q->kind == fixed ? 0.0 : q->vect[1].c[k]); }
  vput("]");
}
static plCurve *read_text(const char *text, int *err, char *msg, size_t n) {
  FILE *f = fopen("in.vect", "w"); fputs(text, f); fclose(f);
  f = fopen("in.vect", "r"); *err = -77; memset(msg, 'x', n); msg[n - 1] = 0;
  plCurve *L = plc_read(f, err, msg, n); fclose(f);
  return L;
}
static char *write_text(plCurve *L) {
  FILE *f = fopen("out.vect", "w"); plc_write(f, L); fclose(f);
  return slurp("out.vect");
}
static int msg_ok(int err, const char *msg) { return strlen(msg) < 80 && (err == 0) == (msg[0] == 0); }
static double frac16(void) { return ldexp((double)rand() / RAND_MAX - 0.5, rand() % 40 - 20); }

static int plcfile(int r) {
  if (is("wr")) {                           /* wr r s: write s, read the file into r */
    int s = ti(2), err; char msg[80]; char *t = write_text(R[s]); int kept = same(-1);
    plCurve *L = read_text(t, &err, msg, sizeof msg);
    if (r != s) drop(r);
    plCurve *old = R[s];
    head("wr", r); vput("\"s\":%d,\"kept\":%d,\"err\":%d,\"msg\":%d,\"items\":", s, kept, err, msg_ok(err, msg)); put_items(t);
    if (!L) { vput(",\"out\":[]}"); vflush(); return 1; }
    vput(",\"p\":"); put_16(old); vput(",\"q\":"); put_16(L);
    if (r == s) plc_free(old);
    R[r] = L;
    vput(",\"out\":["); put_curve(L); vput("],\"ix\":%d}", ix); vflush(); free(t); return 1;
  }
  if (is("rd")) {                           /* rd r text (%xx encoded) */
    int err; char msg[80]; char *t = pct(tok[2]);
    plCurve *L = read_text(t, &err, msg, sizeof msg);
    drop(r); head("rd", r); vput("\"err\":%d,\"msg\":%d,\"items\":", err, msg_ok(err, msg)); put_items(t);
    vput(",\"out\":["); if (L) { R[r] = L; put_curve(L); } vput("],\"ix\":%d}", ix); vflush(); return 1;
  }
  if (is("mut")) {                          /* mut r s pos byte: write s, change (0: cut at) the byte at pos, read */
    int s = ti(2), err; char msg[80]; char *t = write_text(R[s]); size_t n = strlen(t), at = n ? (size_t)ti(3) * n / 1000 : 0;
    if (ti(4)) t[at] = (char)ti(4); else t[at] = 0;
    plCurve *L = read_text(t, &err, msg, sizeof msg);
    drop(r); head("rd", r); vput("\"err\":%d,\"msg\":%d,\"items\":", err, msg_ok(err, msg)); put_items(t);
    vput(",\"out\":["); if (L) { R[r] = L; put_curve(L); } vput("],\"ix\":%d}", ix); vflush(); free(t); return 1;
  }
  if (is("noise")) {                        /* noise r seed: unround every number of the curve (the specification forgets them) */
    srand(ti(2));
    for (int i = 0; i < R[r]->nc; i++) {
      for (int j = 0; j < R[r]->cp[i].nv; j++) R[r]->cp[i].vt[j] = plc_build_vect(frac16(), frac16(), frac16());
      for (int j = 0; j < R[r]->cp[i].cc; j++) R[r]->cp[i].clr[j] = plc_build_color(frac16(), frac16(), frac16(), frac16());
    }
    for (plc_constraint *q = R[r]->cst; q; q = q->next) {
      q->vect[0] = plc_build_vect(frac16(), frac16(), frac16());
      if (q->kind == line) q->vect[1] = plc_build_vect(frac16(), frac16(), frac16());
      if (q->kind == plane) q->vect[1].c[0] = frac16();
    }
    plc_fix_wrap(R[r]);
    head("noise", r); vput("\"z\":0"); tail(r, r); return 1;
  }
  return 0;
}
