/* P24: entropy coding of spectra and scale factors, every value in every context the coder distinguishes. */
#include "vf.h"
#include "model.h"

static uint32_t rng;
static uint32_t rnd(void)
{
  rng = rng * 1664525u + 1013904223u;
  return rng >> 8;
}
/* de Bruijn sequence of order 3 over 15 letters: every neighbourhood of three coded values */
static int8_t db[3375 + 3];
static int ndb;
static void db_gen(int *a, int t, int p)
{
  if (t > 3)
  {
    if (3 % p == 0)
      for (int i = 1; i <= p; i++)
        db[ndb++] = (int8_t)a[i];
    return;
  }
  a[t] = a[t - p];
  db_gen(a, t + 1, p);
  for (int j = a[t - p] + 1; j < 15; j++)
  {
    a[t] = j;
    db_gen(a, t + 1, t);
  }
}
/* a pair of values whose context nibble is v + 1 */
static void pair_of(int *q, int i, int v)
{
  int a = v / 2 + (rnd() & 1 ? 0 : v & 1), b = v - a;
  q[2 * i] = rnd() & 1 ? a : -a;
  q[2 * i + 1] = rnd() & 1 ? b : -b;
}
static void sym_of(int *q, int i, int sym, int lev)
{
  int a = sym & 3, b = sym >> 2;
  if (sym == 16)
  { /* escapes: lev of them, any leading pair except none */
    int s = 1 + rnd() % 15;
    if (s < 4 && !(s & 3))
      s = 5;
    a = (s & 3) << lev;
    b = (s >> 2) << lev;
    if (lev)
    {
      a |= rnd() & ((1 << lev) - 1);
      b |= rnd() & ((1 << lev) - 1);
    }
    if ((a | b) >> lev == 0)
      a |= 1 << lev;
    if (a <= 3 && b <= 3)
      a += 4;
  }
  q[2 * i] = rnd() & 1 ? a : -a;
  q[2 * i + 1] = rnd() & 1 ? b : -b;
}
static void flat(fd_ch *f, int fsi)
{
  f->max_sfb = f->win == W_SHORT ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
  f->arith_reset = 0;
  f->use_stop = 0;
}
/* equalise the level of the bands by their scale factors so that no value hides behind a larger one */
static void equalise(fd_ch *f, int fsi, int base)
{
  const int16_t *t = f->win == W_SHORT ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  int len[8] = {1}, sh = f->win == W_SHORT, ng = sh ? fd_groups(f->grouping, len) : 1, w0 = 0, last = base;
  for (int g = 0; g < ng; w0 += len[g], g++)
    for (int b = 0; b < f->max_sfb; b++)
    {
      int m = 1;
      for (int w = w0; w < w0 + len[g]; w++)
        for (int i = b ? t[b - 1] : 0; i < t[b]; i++)
          if (abs(f->q[w * 128 * sh + i]) > m)
            m = abs(f->q[w * 128 * sh + i]);
      int s = base - (int)lrint(4 * log2(pow(m, 4.0 / 3)));
      if (s > last + 60)
        s = last + 60;
      if (s < last - 60)
        s = last - 60;
      f->sf[g][b] = last = s;
      if (!g && !b)
        f->gg = s;
    }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  int a0[5] = {0};
  db_gen(a0, 1, 1);
  for (int i = 0; i < 3; i++)
    db[ndb + i] = db[i];
  vf_count("distinct_neighbourhoods", vf_shard ? 0 : ndb);
  /* every neighbourhood of three values in the transform before x value to the left x symbol */
  for (int par = 0; par < 2; par++)
    for (int v = 0; v < 15; v++)
      for (int sb = 0; sb < 17; sb += vf_thorough ? 1 : 3)
        if (vf_case("contexts, left value %d, parity %d, symbols from %d", v, par, sb))
        {
          mt_t m = mt_new("S", 1, 3);
          fd_ch *f = &m.s->ch[0];
          mt_begin(&m);
          rng = (uint32_t)vf_idx + 1;
          for (int s = sb; s < 17 && s < sb + (vf_thorough ? 1 : 3); s++)
            for (int lev = 0; lev < (s == 16 && vf_thorough ? 12 : 1); lev++)
              for (int seg = 0; seg < 7; seg++)
              {
                flat(f, 3);
                fd_gain(f, 120);
                memset(f->q, 0, sizeof(f->q));
                for (int i = 0; i < 512; i++)
                  pair_of(f->q, i, db[(seg * 500 + i) % ndb]);
                equalise(f, 3, 130);
                mt_frame(&m, s == sb && seg == 0 && !lev);
                flat(f, 3);
                for (int i = 0; i < 512; i++)
                  if ((i & 1) == par)
                    sym_of(f->q, i, s, s == 16 ? (vf_thorough ? lev + 1 : 1 + (int)(rnd() % 3)) : 0);
                  else
                    pair_of(f->q, i, v);
                equalise(f, 3, 130);
                mt_frame(&m, 0);
              }
          mt_check(&m, "context");
          vf_nontriv++;
          mt_free(&m);
        }
  /* the same after three small values, where the coder switches to its quiet contexts */
  for (int sh = 0; sh < 4; sh++)
    for (int lo = 0; lo < 4; lo++)
      for (int sb = 0; sb < 17; sb += 6)
        if (vf_case("quiet contexts, pattern %d, shift %d, symbols from %d", lo, sh, sb))
        {
          mt_t m = mt_new("S", 1, 3);
          fd_ch *f = &m.s->ch[0];
          mt_begin(&m);
          rng = (uint32_t)vf_idx + 1;
          for (int s = sb; s < 17 && s < sb + 6; s++)
            for (int seg = 0; seg < 7; seg++)
            {
              flat(f, 3);
              fd_gain(f, 120);
              for (int i = 0; i < 512; i++)
                pair_of(f->q, i, db[(seg * 500 + i) % ndb]);
              equalise(f, 3, 130);
              mt_frame(&m, s == sb && seg == 0);
              flat(f, 3);
              for (int i = 0; i < 512; i++)
                if ((i & 3) == sh)
                  sym_of(f->q, i, s, s == 16 ? 1 + (int)(rnd() % 4) : 0);
                else
                  pair_of(f->q, i, (((i - sh) & 3) == lo) ? 1 : 0);
              equalise(f, 3, 130);
              mt_frame(&m, 0);
            }
          mt_check(&m, "quiet-context");
          vf_nontriv++;
          mt_free(&m);
        }
  /* every magnitude, both signs, one per band, long and short */
  for (int sh = 0; sh < 2; sh++)
    for (int blk = 0; blk < 16; blk++)
      if (vf_case("magnitudes %d.. %s", blk * 600, sh ? "short" : "long"))
      {
        mt_t m = mt_new("S", 1, 3);
        fd_ch *f = &m.s->ch[0];
        int v = blk * 600, end = v + 640;
        mt_begin(&m);
        rng = 9;
        if (sh)
        {
          flat(f, 3);
          f->win = W_START;
          f->max_sfb = 0;
          mt_frame(&m, 1);
        }
        for (int fr = 0; v < end; fr++)
        {
          f->win = sh ? W_SHORT : W_LONG;
          flat(f, 3);
          f->grouping = 0;
          fd_gain(f, 120);
          memset(f->q, 0, sizeof(f->q));
          const int16_t *t = sh ? gold_sfb_s[3] : gold_sfb_l[3];
          int nb = sh ? 14 : 49;
          for (int w = 0; w < (sh ? 8 : 1); w++)
            for (int b = 0; b < nb; b++, v++)
            {
              int lo = b ? t[b - 1] : 0, val = v > 9000 ? 9000 + (v - 9000) * 12 : v;
              f->q[w * 128 + lo + rnd() % (t[b] - lo)] = (v + fr) & 1 ? val : -val;
            }
          equalise(f, 3, 130);
          mt_frame(&m, fr == 0 && !sh);
        }
        mt_check(&m, "magnitude");
        vf_nontriv++;
        mt_free(&m);
      }
  /* bandwidth from frame to frame: every ordered pair, long */
  for (int blk = 0; blk < 50; blk++)
    if (vf_case("bandwidth pairs with %d bands", blk))
    {
      mt_t m = mt_new("S", 1, 3);
      fd_ch *f = &m.s->ch[0];
      mt_begin(&m);
      rng = blk;
      for (int o = 0; o <= 49; o++)
        for (int k = 0; k < 2; k++)
        {
          fd_gain(f, 130);
          f->max_sfb = k ? o : blk;
          f->arith_reset = (o % 7) == 3 && k;
          f->use_stop = (rnd() & 3) == 0;
          memset(f->q, 0, sizeof(f->q));
          int top = f->max_sfb ? gold_sfb_l[3][f->max_sfb - 1] : 0;
          if (f->use_stop && top)
            top = rnd() % top;
          for (int i = 0; i < top; i++)
            f->q[i] = rnd() % 3 ? (int)(rnd() % 9) - 4 : 0;
          mt_frame(&m, o == 0 && k == 0);
        }
      mt_check(&m, "bandwidth");
      vf_nontriv++;
      mt_free(&m);
    }
  /* transform lengths: start, short and stop frames of every bandwidth, with and without reset */
  for (int a = 0; a < 50; a += vf_thorough ? 1 : 7)
    for (int rs = 0; rs < 8; rs++)
      if (vf_case("length changes, %d bands before, resets %d", a, rs))
      {
        mt_t m = mt_new("S", 1, 3);
        fd_ch *f = &m.s->ch[0];
        mt_begin(&m);
        rng = a * 8 + rs;
        for (int b = 0; b < 15; b++)
        {
          static const int wins[] = {W_START, W_SHORT, W_SHORT, W_STOP, W_LONG};
          for (int k = 0; k < 5; k++)
          {
            f->win = wins[k];
            f->grouping = rnd() & 127;
            f->max_sfb = k == 1 ? b : k == 2 ? (int)(rnd() % 15) : k == 3 ? (a + 3 * b) % 50 : a;
            fd_gain(f, 130);
            f->arith_reset = k == 1 ? rs & 1 : k == 2 ? (rs >> 1) & 1 : k == 3 ? (rs >> 2) & 1 : 0;
            f->use_stop = (rnd() & 3) == 0;
            memset(f->q, 0, sizeof(f->q));
            int top = !f->max_sfb ? 0 : f->win == W_SHORT ? gold_sfb_s[3][f->max_sfb - 1] : gold_sfb_l[3][f->max_sfb - 1];
            for (int w = 0; w < (f->win == W_SHORT ? 8 : 1); w++)
            {
              int tt = f->use_stop && top ? (int)(rnd() % top) : top;
              for (int i = 0; i < tt; i++)
                f->q[w * 128 + i] = rnd() % 3 ? (int)(rnd() % 9) - 4 : 0;
            }
            mt_frame(&m, b == 0 && k == 0);
          }
        }
        mt_check(&m, "length-change");
        vf_nontriv++;
        mt_free(&m);
      }
  /* last coded pair at every position, with the end symbol and without */
  for (int blk = 0; blk < 8; blk++)
    for (int st = 0; st < 2; st++)
      if (vf_case("end of spectrum at %d..%d%s", blk * 64, blk * 64 + 63, st ? " marked" : ""))
      {
        mt_t m = mt_new("S", 1, 3);
        fd_ch *f = &m.s->ch[0];
        mt_begin(&m);
        rng = blk;
        for (int e = 0; e < 64; e++)
        {
          flat(f, 3);
          fd_gain(f, 130);
          f->use_stop = st;
          f->arith_reset = e & 1;
          memset(f->q, 0, sizeof(f->q));
          for (int i = 0; i < (blk * 64 + e) * 2; i++)
            f->q[i] = (int)(rnd() % 7) - 3;
          mt_frame(&m, e == 0);
        }
        mt_check(&m, "end");
        vf_nontriv++;
        mt_free(&m);
      }
  /* every scale factor difference at every band, long; at every band and group, short */
  for (int d = -60; d <= 60; d++)
    if (vf_case("scale factor difference %d", d))
    {
      mt_t m = mt_new("S", 1, 3);
      fd_ch *f = &m.s->ch[0];
      mt_begin(&m);
      for (int b = 1; b < 49; b++)
      {
        int base = d > 0 ? 140 - d : 80;
        f->win = W_LONG;
        flat(f, 3);
        fd_gain(f, base);
        memset(f->q, 0, sizeof(f->q));
        for (int k = b; k < 49; k++)
        {
          f->sf[0][k] = base + d;
          f->q[gold_sfb_l[3][k - 1] + 1] = k == b ? 9 : 5;
        }
        mt_frame(&m, b == 1);
      }
      f->win = W_START;
      f->max_sfb = 0;
      mt_frame(&m, 0);
      for (int b = 0; b < 14 * 4; b++)
      {
        int base = d > 0 ? 140 - d : 80, g0 = b / 14, b0 = b % 14;
        f->win = W_SHORT;
        flat(f, 3);
        f->grouping = 0x57; /* groups of 2, 3, 1.. windows */
        int len[8], ng = fd_groups(f->grouping, len), w0 = 0;
        if (g0 >= ng || (g0 == 0 && b0 == 0))
          continue;
        fd_gain(f, base);
        memset(f->q, 0, sizeof(f->q));
        for (int g = 0; g < ng; w0 += len[g], g++)
          for (int k = 0; k < 14; k++)
            if (g > g0 || (g == g0 && k >= b0))
            {
              f->sf[g][k] = base + d;
              for (int w = w0; w < w0 + len[g]; w++)
                f->q[w * 128 + (k ? gold_sfb_s[3][k - 1] : 0) + 1] = 7;
            }
        mt_frame(&m, 0);
      }
      mt_check(&m, "scale-factor");
      vf_nontriv++;
      mt_free(&m);
    }
  /* every sampling rate's bands: one line in each band with its own scale factor */
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int p = 0; p < 2; p++)
      if (vf_case("bands of fs %d %s", gold_fs[fsi], p ? "pair" : "single"))
      {
        mt_t m = mt_new(p ? "P" : "S", 1 + p, fsi);
        mt_begin(&m);
        rng = fsi;
        for (int fr = 0; fr < 120; fr++)
        {
          static const int wins[] = {W_LONG, W_START, W_SHORT, W_SHORT, W_STOP};
          for (int c = 0; c < 1 + p; c++)
          {
            fd_ch *f = &m.s->ch[c];
            f->win = wins[fr % 5];
            int sh = f->win == W_SHORT, nb = sh ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
            const int16_t *t = sh ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
            f->grouping = rnd() & 127;
            f->max_sfb = rnd() % 4 ? nb : rnd() % (nb + 1);
            if (sh && f->max_sfb > 15)
              f->max_sfb = 15;
            fd_gain(f, 130);
            for (int g = 0; g < 8; g++)
              for (int b = 0; b < nb; b++)
                f->sf[g][b] = g || b ? 120 + (int)(rnd() % 20) : 130;
            memset(f->q, 0, sizeof(f->q));
            f->arith_reset = rnd() & 1;
            for (int w = 0; w < (sh ? 8 : 1); w++)
              for (int b = 0; b < f->max_sfb; b++)
              {
                int lo = b ? t[b - 1] : 0;
                f->q[w * 128 + (fr & 1 ? lo : t[b] - 1)] = (int)(rnd() % 19) - 9;
              }
          }
          mt_frame(&m, fr % 9 == 0);
        }
        mt_check(&m, "bands");
        vf_nontriv++;
        mt_free(&m);
      }
  return vf_finish();
}
