/* every query function on one diagram object */
static void query_command(void) {
  int r = ti(1); pd_code_t *pd = R[r]; long S[1] = {r};
  pd_idx_t a, b, c, d, ne = pd->nedges; bool sgn = true;
  for (pd_idx_t i = 0; i < pd->ncross; i++) if (pd->cross[i].sign == PD_UNSET_ORIENTATION) sgn = false;
  watch(pd);
  ev_begin("q"); ev_srcs(-1, 1, S);
  vput(",\"cp\":["); for (pd_idx_t k = 0; k < ne; k++) { pd_component_and_pos(pd, k, &a, &b); vput("%s[%ld,%ld]", k ? "," : "", lidx(a), lidx(b)); }
  vput("],\"fp\":["); for (pd_idx_t k = 0; k < ne; k++) { pd_face_and_pos(pd, k, &a, &b, &c, &d); vput("%s[%ld,%ld,%ld,%ld]", k ? "," : "", lidx(a), lidx(b), lidx(c), lidx(d)); }
  vput("],\"of\":["); for (pd_idx_t f = 0; f < pd->nfaces; f++) { vput("%s[", f ? "," : ""); for (pd_idx_t k = 0; k < ne; k++) vput("%s%d", k ? "," : "", (int)pd_edge_on_face(pd, k, f)); vput("]"); }
  vput("]");
  if (pd->ncross) {
    vput(",\"nx\":["); for (pd_idx_t k = 0; k < ne; k++) vput("%s%ld", k ? "," : "", lidx(pd_next_edge(pd, k)));
    vput("],\"pv\":["); for (pd_idx_t k = 0; k < ne; k++) vput("%s%ld", k ? "," : "", lidx(pd_previous_edge(pd, k)));
    vput("],\"op4\":["); for (pd_idx_t x = 0; x < pd->ncross; x++) { pd_overstrand_pos(pd, x, &a, &b); pd_understrand_pos(pd, x, &c, &d); vput("%s[%ld,%ld,%ld,%ld]", x ? "," : "", lidx(a), lidx(b), lidx(c), lidx(d)); }
    vput("],\"oe4\":["); for (pd_idx_t x = 0; x < pd->ncross; x++) { pd_overstrand(pd, x, &a, &b); pd_understrand(pd, x, &c, &d); vput("%s[%ld,%ld,%ld,%ld]", x ? "," : "", lidx(a), lidx(b), lidx(c), lidx(d)); }
    vput("]");
  }
  vput(",\"ul\":["); for (pd_idx_t i = 0; i < pd->ncomps; i++) { vput("%s[", i ? "," : ""); for (pd_idx_t j = 0; j < pd->ncomps; j++) vput("%s%d", j ? "," : "", i == j ? 0 : (int)pd_unsigned_linking_number(pd, i, j)); vput("]"); }
  vput("],\"lk\":["); for (pd_idx_t i = 0; i < pd->ncomps; i++) { vput("%s[", i ? "," : ""); for (pd_idx_t j = 0; j < pd->ncomps; j++) vput("%s%d", j ? "," : "", i == j || !sgn ? 0 : pd_linking_number(pd, i, j)); vput("]"); }
  int *is = pd_interlaced_crossings(pd); unsigned int *iu = pd_interlaced_crossings_unsigned(pd);
  vput("],\"is\":["); for (pd_idx_t i = 0; i < pd->ncomps; i++) vput("%s%d", i ? "," : "", is[i]);
  vput("],\"iu\":["); for (pd_idx_t i = 0; i < pd->ncomps; i++) vput("%s%u", i ? "," : "", iu[i]);
  vput("],\"alt\":%d", sgn ? (int)pd_is_alternating(pd) : 0);
  ev_same(); ev_end();
  free(is); free(iu);
}
