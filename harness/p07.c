/* P07: what is reported about the output describes the output.  Enumerated: reference layouts x every way to compose
 * them of elements x frames, layouts given as a list of speakers in every rotation and reversed, and every target layout.
 * Each channel carries a signal of its own; the model says what has to come out of the output channel reported for it. */
#include "vf.h"
#include "model.h"
#include "streams.h"
#include "layouts.h"

static const spk *want; /* speakers in output order */
static int want_n, want_cicp, want_fs, want_type, want_word, told;
static int calls;
static void watch(dec_t *d, int executing)
{
  ia_output_config *o = &d->out;
  calls++;
  if (told)
    return;
  const char *when = executing ? "executing" : "initialisation";
  /* with a target layout the number of channels is known once there is output */
  if ((executing || !d->in.ui_cicp_layout_idx) && o->i_num_chan != want_n)
    told = 1, vf_fail("channels", "after %s %d channels are reported instead of %d", when, o->i_num_chan, want_n);
  else if (o->num_speakers != want_n)
    told = 1, vf_fail("speakers", "after %s %d speakers are reported for %d channels", when, o->num_speakers, want_n);
  else if (o->i_samp_freq != want_fs)
    told = 1, vf_fail("rate", "after %s %d Hz are reported instead of %d", when, o->i_samp_freq, want_fs);
  else if (o->i_pcm_wd_sz != want_word)
    told = 1, vf_fail("word", "after %s a word size of %d is reported instead of %d", when, o->i_pcm_wd_sz, want_word);
  else if (want_cicp && o->cicp_index != want_cicp)
    told = 1, vf_fail("layout", "after %s layout %d is reported instead of %d", when, o->cicp_index, want_cicp);
  else if (o->spk_layout != want_type)
    told = 1, vf_fail("layout", "after %s layout type %d is reported instead of %d", when, o->spk_layout, want_type);
  else if (executing && o->num_out_bytes % (want_n * want_word / 8))
    told = 1, vf_fail("whole-frames", "%d bytes are put out for %d channels of %d bits", o->num_out_bytes, want_n, want_word);
  for (int c = 0; c < want_n && !told; c++)
    if (want && (o->azimuth[c] != want[c].az || o->elevation[c] != want[c].el || o->is_lfe[c] != want[c].lfe))
      told = 1, vf_fail("speaker", "after %s channel %d is reported at %d/%d%s instead of %d/%d%s", when, c, o->azimuth[c], o->elevation[c], o->is_lfe[c] ? " LFE" : "", want[c].az, want[c].el, want[c].lfe ? " LFE" : "");
}
static const int rates[] = {0, 0, 0, 48000, 44100, 32000, 24000, 22050, 16000};
static void frames(mt_t *m, const char *els, int fsi, int nf)
{
  for (int f = 0; f < nf; f++)
  {
    int c = 0;
    for (const char *p = els; *p; p++)
      for (int k = 0; k < (*p == 'P' ? 2 : 1); k++, c++)
      {
        fd_ch *x = &m->s->ch[c];
        int lfe = *p == 'L';
        x->win = lfe || f == 0 ? W_LONG : f == 1 ? W_START : f == 2 ? W_SHORT : f == 3 ? W_STOP : W_LONG;
        x->max_sfb = lfe ? 3 : x->win == W_SHORT ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
        x->arith_reset = f == 0;
        fd_gain(x, 124);
        sx_fill(x, fsi, f * 100 + c, lfe ? 100 : 60);
      }
    for (int e = 0; e < m->s->cfg.nel; e++)
      if (m->s->cfg.el[e].type == EL_CPE)
        m->s->cpe[e].common_window = f & 1;
    mt_frame(m, f == 0);
  }
}
static void compose(int cicp, const char *els, int fsi)
{
  mt_t m = mt_new(els, cicp, fsi);
  want = lay[cicp];
  want_n = sx_cicp_nch(cicp);
  want_cicp = cicp;
  want_type = 0;
  want_fs = rates[fsi];
  want_word = 32;
  told = 0;
  mt_begin(&m);
  frames(&m, els, fsi, 5);
  dec_watch = watch;
  mt_check(&m, "channel");
  dec_watch = 0;
  if (calls)
    vf_nontriv++;
  mt_free(&m);
}
/* all compositions; LFE speakers as LFE elements or as single channels */
static void tile(int cicp, char *els, int ne, int c, int variant, int *left)
{
  int n = sx_cicp_nch(cicp);
  if (*left <= 0)
    return;
  if (c == n)
  {
    els[ne] = 0;
    (*left)--;
    for (int fsi = 3; fsi <= (vf_thorough ? 8 : 3 + (ne & 1)); fsi++)
      if (vf_case("layout %d as %s at %d Hz", cicp, els, rates[fsi]))
        compose(cicp, els, fsi);
    return;
  }
  int lfe = lay[cicp][c].lfe;
  if (lfe && !(variant & 1))
  {
    els[ne] = 'L';
    tile(cicp, els, ne + 1, c + 1, variant, left);
    return;
  }
  if (c + 1 < n && !(lay[cicp][c + 1].lfe && !(variant & 1)))
  {
    els[ne] = 'P';
    tile(cicp, els, ne + 1, c + 2, variant, left);
  }
  els[ne] = 'S';
  tile(cicp, els, ne + 1, c + 1, variant, left);
}
/* speakers listed one by one */
static const struct { spk s; int idx; } names[] = {
    {{30, 0, 0}, 0}, {{-30, 0, 0}, 1}, {{0, 0, 0}, 2}, {{0, 0, 1}, 3}, {{110, 0, 0}, 4}, {{-110, 0, 0}, 5}, {{22, 0, 0}, 6}, {{-22, 0, 0}, 7},
    {{135, 0, 0}, 8}, {{-135, 0, 0}, 9}, {{180, 0, 0}, 10}, {{90, 0, 0}, 13}, {{-90, 0, 0}, 14}, {{60, 0, 0}, 15}, {{-60, 0, 0}, 16}, {{30, 35, 0}, 17}, {{-30, 35, 0}, 18}, {{0, 35, 0}, 19},
    {{135, 35, 0}, 20}, {{-135, 35, 0}, 21}, {{180, 35, 0}, 22}, {{90, 35, 0}, 23}, {{-90, 35, 0}, 24}, {{0, 90, 0}, 25}, {{45, -15, 1}, 26}, {{45, -15, 0}, 27}, {{-45, -15, 0}, 28},
    {{0, -15, 0}, 29}, {{110, 35, 0}, 30}, {{-110, 35, 0}, 31}, {{45, 35, 0}, 32}, {{-45, 35, 0}, 33}, {{45, 0, 0}, 34}, {{-45, 0, 0}, 35}, {{-45, -15, 1}, 36}, {{150, 0, 0}, 41}, {{-150, 0, 0}, 42}};
enum { NNAMES = sizeof(names) / sizeof(*names) };
static void list(int first, int n, int step)
{
  mt_t m;
  spk s[16];
  char els[32] = {0};
  memset(els, 'S', n);
  m = mt_new(els, 0, 3);
  m.s->cfg.layout_type = 1;
  m.s->cfg.nspk = n;
  for (int i = 0; i < n; i++)
  {
    int k = ((first + i * step) % NNAMES + NNAMES) % NNAMES;
    s[i] = names[k].s;
    m.s->cfg.spk[i] = names[k].idx;
  }
  want = s;
  want_n = n;
  want_cicp = 0;
  want_type = 1;
  want_fs = 48000;
  want_word = 32;
  told = 0;
  mt_begin(&m);
  frames(&m, els, 3, 4);
  dec_watch = watch;
  mt_check(&m, "channel");
  dec_watch = 0;
  vf_nontriv++;
  mt_free(&m);
}
/* reports under conversion */
static void target(int src, int tgt, int word)
{
  char els[32] = {0};
  int n = sx_cicp_nch(src);
  memset(els, 'S', n);
  mt_t m = mt_new(els, src, 3);
  blob b;
  dec_t d;
  want = tgt == 13 ? 0 : lay[tgt];
  want_n = tgt == 13 ? 24 : sx_cicp_nch(tgt);
  want_cicp = tgt;
  want_type = 0;
  want_fs = 48000;
  want_word = word;
  told = 0;
  mt_begin(&m);
  frames(&m, els, 3, 4);
  b.d = sb_take(m.s, &b.n);
  dec_defaults(&d);
  d.in.ui_pcm_wd_sz = word;
  d.in.ui_cicp_layout_idx = tgt;
  dec_watch = watch;
  int e = dec_all(&d, b, 0);
  dec_watch = 0;
  if (e)
    vf_fail("refused", "code %x", e);
  else if (!told && d.npcm != (4 * 1024 - 240L - 256) * want_n * word / 8)
    vf_fail("length", "%ld bytes of PCM for four frames", (long)d.npcm);
  vf_outcome(vf_hash(d.pcm, d.npcm, tgt));
  vf_trans += d.n_exec;
  vf_nontriv++;
  dec_close(&d);
  dec_free(&d);
  free(b.d);
  mt_free(&m);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  for (int cicp = 1; cicp <= 20; cicp++)
  {
    int lfe = 0, n = sx_cicp_nch(cicp);
    char els[32];
    if (!n || cicp == 13)
      continue;
    for (int c = 0; c < n; c++)
      lfe |= lay[cicp][c].lfe;
    for (int v = 0; v <= lfe; v++)
    {
      int left = vf_thorough ? 400 : 30;
      tile(cicp, els, 0, 0, v, &left);
      memset(els, 'S', n);
      els[n] = 0;
      for (int c = 0; c < n; c++)
        if (lay[cicp][c].lfe && !v)
          els[c] = 'L';
      if (left <= 0 && vf_case("layout %d as %s at 48000 Hz", cicp, els))
        compose(cicp, els, 3);
    }
  }
  for (int n = 1; n <= 16; n++)
    for (int first = 0; first < NNAMES; first += vf_thorough ? 1 : n)
      for (int step = 1; step >= -1; step -= 2)
        if (vf_case("%d speakers listed from number %d %s", n, first, step > 0 ? "up" : "down"))
          list(first, n, step);
  for (int src = 1; src <= 20; src++)
    for (int tgt = 1; tgt <= 19; tgt++)
      if (sx_cicp_nch(src) && src != 13 && sx_cicp_nch(tgt))
        for (int w = 16; w <= (vf_thorough ? 32 : 16); w += 8)
          if (vf_case("layout %d into %d, %d bits", src, tgt, w))
            target(src, tgt, w);
  return vf_finish();
}
