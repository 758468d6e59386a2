/* P23: every window sequence to a depth.  The model's synthesis is explored on its own first: a signal analysed with the
 * matching windows must come back exactly at every transition.  Then the same sequences are coded and decoded by the
 * real decoder and compared with the model sample by sample. */
#include "vf.h"
#include "model.h"

typedef struct
{
  int win, shape, al; /* al: symmetry at the right edge */
} step_t;
/* forward transform of one frame with the given windows: lines from 2048 samples */
static void analyse(const double *x, double *c, int win, int left_short, int lshape, int shape, int alp, int alc)
{
  int N = win == W_SHORT ? 128 : 1024;
  static const double k0s[4] = {0.5, 1, 0, 0.5};
  for (int w = 0; w < 1024 / N; w++)
  {
    double z[2048];
    int kernel = w ? 3 * alc : 2 * alp + alc;
    if (win == W_SHORT)
      for (int i = 0; i < 256; i++)
        z[i] = x[448 + 128 * w + i] *
               (i < 128 ? rd_win(128, w ? shape : lshape)[i] : rd_win(128, shape)[255 - i]);
    else
      for (int i = 0; i < 1024; i++)
      {
        int rs = win == W_START;
        z[i] = x[i] * (left_short ? (i < 448 ? 0 : i < 576 ? rd_win(128, lshape)[i - 448] : 1) : rd_win(1024, lshape)[i]);
        z[1024 + i] = x[1024 + i] * (rs ? (i < 448 ? 1 : i < 576 ? rd_win(128, shape)[575 - i] : 0) : rd_win(1024, shape)[1023 - i]);
      }
    /* X[k] = sum z[n] cs(pi/N (n + n0)(k + k0)), by the same routine the other way round */
    double n0 = 0.5 + N / 2.0, k0 = k0s[kernel];
    double complex f[2048];
    for (int n = 0; n < 2 * N; n++)
      f[n] = z[n] * cexp(I * M_PI / N * (n + n0) * k0);
    rd_fft(f, 2 * N);
    for (int k = 0; k < N; k++)
    {
      double complex v = f[k] * cexp(I * M_PI / N * n0 * k);
      double r = kernel & 1 ? cimag(v) : creal(v);
      r *= 2; /* the forward transform of the standard carries the factor two */
      if ((kernel == 2 && k == 0) || (kernel == 1 && k == N - 1))
        r /= 2;
      c[w * N + k] = r;
    }
  }
}
static uint32_t rng;
static uint32_t rnd(void)
{
  rng = rng * 1664525u + 1013904223u;
  return rng >> 8;
}
/* the choices open after a frame with the given right slope and symmetry */
static int choices(int right, int al, step_t *o, int mixed)
{
  int n = 0;
  for (int sh = 0; sh < 2; sh++)
    for (int w = 0; w < 4; w++)
    {
      int legal = right ? w != W_LONG : w == W_LONG || w == W_START;
      if (!legal)
        continue;
      for (int a = 0; a < 2; a++)
      {
        if (!mixed && a != al)
          continue;
        if (w == W_SHORT && a != al)
          continue;
        o[n].win = w;
        o[n].shape = sh;
        o[n++].al = a;
      }
    }
  return n;
}
#define MAXD 8
static step_t path[4096];
static int npath;
/* appends every path of the depth below the given prefix, each closed so that the next starts from a long slope */
static void walk(int depth, step_t *p, int n, int right, int al, int mixed)
{
  if (n == depth)
  {
    if (npath + n + 2 > 4000)
      return;
    memcpy(path + npath, p, n * sizeof(step_t));
    npath += n;
    if (right)
    {
      path[npath].win = W_STOP;
      path[npath].shape = npath & 1;
      path[npath++].al = mixed ? 0 : al;
    }
    else if (mixed && al)
    {
      path[npath].win = W_LONG;
      path[npath].shape = npath & 1;
      path[npath++].al = 0;
    }
    return;
  }
  step_t o[32];
  int c = choices(right, al, o, mixed);
  for (int i = 0; i < c; i++)
  {
    p[n] = o[i];
    walk(depth, p, n + 1, o[i].win == W_SHORT || o[i].win == W_START, o[i].al, mixed);
  }
}
static void model_pr(void)
{
  rd_ch s;
  rd_ch_init(&s, 0);
  static double x[4096 * 1024 + 2048];
  for (long i = 0; i < (npath + 1) * 1024L; i++)
    x[i] = (double)(int)(rnd() & 0xffff) - 32768;
  int right = 0, shape = path[0].shape, al = path[0].win == W_SHORT ? path[0].al : path[0].al;
  for (int f = 0; f < npath; f++)
  {
    double c[1024], o[1024];
    int ls = path[f].win == W_SHORT || path[f].win == W_STOP || (path[f].win == W_START && right);
    analyse(x + f * 1024L, c, path[f].win, ls, shape, path[f].shape, al, path[f].al);
    rd_synth(&s, c, path[f].win, path[f].shape, al, path[f].al, o);
    for (int i = 0; i < 1024 && f; i++)
      if (fabs(o[i] - x[f * 1024L + i]) > 1e-6)
      {
        vf_fail("reconstruction", "frame %d (window %d shape %d) sample %d: %.6f instead of %.6f", f, path[f].win,
                path[f].shape, i, o[i], x[f * 1024L + i]);
        return;
      }
    right = path[f].win == W_SHORT || path[f].win == W_START;
    shape = path[f].shape;
    al = path[f].al;
  }
}
static void content(fd_ch *f, int fsi, int k, int lfe)
{
  int sh = f->win == W_SHORT;
  f->max_sfb = lfe ? 5 : sh ? 14 : gold_nsfb_l[fsi] - (k & 3);
  if (sh && f->max_sfb > gold_nsfb_s[fsi])
    f->max_sfb = gold_nsfb_s[fsi];
  f->grouping = rnd() & 127;
  memset(f->q, 0, sizeof(f->q));
  int top = sh ? gold_sfb_s[fsi][f->max_sfb - 1] : gold_sfb_l[fsi][f->max_sfb - 1];
  for (int w = 0; w < (sh ? 8 : 1); w++)
    for (int j = 0; j < (sh ? 6 : 30); j++)
      f->q[w * 128 + rnd() % top] = (int)(rnd() % 21) - 10;
}
int main(int argc, char **argv)
{
  static const struct
  {
    const char *els;
    int cicp;
  } lay[] = {{"S", 1}, {"P", 2}, {"PSLP", 6}};
  vf_init(argc, argv);
  int depth = vf_thorough ? 5 : 4;
  for (int fsi = 3; fsi <= (vf_thorough ? 8 : 4); fsi++)
    for (int mixed = 0; mixed < 2; mixed++)
    {
      step_t o[32], o2[32];
      for (int al0 = 0; al0 < (mixed ? 1 : 2); al0++)
      {
        int c = choices(0, al0, o, mixed);
        for (int i = 0; i < c; i++)
        {
          int r1 = o[i].win == W_START, c2 = choices(r1, o[i].al, o2, mixed);
          for (int j = 0; j < c2; j++)
            for (int l = 0; l < (fsi == 3 && i + j < 3 ? 3 : 2); l++)
              if (vf_case("%s fs %d sequences %d/%d/%d then %d/%d/%d to depth %d%s%s", lay[l].els, gold_fs[fsi], o[i].win,
                          o[i].shape, o[i].al, o2[j].win, o2[j].shape, o2[j].al, depth, mixed ? " mixed kernels" : "",
                          al0 ? " sine kernels" : ""))
              {
                step_t p[MAXD];
                p[0] = o[i];
                p[1] = o2[j];
                npath = 0;
                rng = 1 + vf_idx;
                walk(depth - (mixed && !vf_thorough), p, 2, o2[j].win == W_SHORT || o2[j].win == W_START, o2[j].al, mixed);
                if (l == 0)
                  model_pr();
                mt_t m = mt_new(lay[l].els, lay[l].cicp, fsi);
                mt_begin(&m);
                int al = al0;
                for (int f = 0; f < npath; f++)
                {
                  for (int k = 0; k < m.r.nch; k++)
                  {
                    fd_ch *x = &m.s->ch[k];
                    int lfe = l == 2 && k == 3;
                    /* the channels of a pair run through different sequences: the other one lags behind */
                    int g = k && !lfe ? f - k : f;
                    step_t st = g >= 0 ? path[g] : (step_t){W_LONG, 0, al0};
                    if (lfe)
                      st = (step_t){W_LONG, 0, 0};
                    int pal = g > 0 ? path[g - 1].al : al0;
                    x->win = st.win;
                    x->shape = st.shape;
                    x->al_prev = lfe ? 0 : pal;
                    x->al_curr = st.al;
                    fd_gain(x, 135);
                    content(x, fsi, f, lfe);
                  }
                  (void)al;
                  mt_frame(&m, f == 0 || f % 7 == 3);
                }
                mt_check(&m, "sequence");
                vf_trans += npath;
                vf_nontriv++;
                mt_free(&m);
              }
        }
      }
    }
  /* all window forms of a pair with a common window, every grouping */
  for (int blk = 0; blk < 8; blk++)
    for (int fsi = 3; fsi <= (vf_thorough ? 8 : 4); fsi++)
      if (vf_case("groupings fs %d %d..%d", gold_fs[fsi], blk * 16, blk * 16 + 15))
      {
        mt_t m = mt_new("P", 2, fsi);
        rng = blk;
        mt_begin(&m);
        for (int f = 0; f < 18; f++)
        {
          for (int k = 0; k < 2; k++)
          {
            fd_ch *x = &m.s->ch[k];
            x->win = f == 0 ? W_START : f == 17 ? W_STOP : W_SHORT;
            fd_gain(x, 135);
            content(x, fsi, f, 0);
            x->grouping = (blk * 16 + f - 1) & 127;
            if (x->win == W_SHORT)
              for (int g = 0; g < 8; g++)
                for (int b = 0; b < x->max_sfb; b++)
                  x->sf[g][b] = g || b ? 135 + (int)(rnd() % 21) - 10 : 135;
          }
          m.s->cpe[0].common_window = f & 1;
          if (!(f & 1))
            m.s->ch[1].grouping = rnd() & 127;
          mt_frame(&m, 0 == f);
        }
        mt_check(&m, "grouping");
        vf_nontriv++;
        mt_free(&m);
      }
  /* a change of symmetry at an eight-short frame */
  for (int p = 0; p < 2; p++)
    for (int shape = 0; shape < 2; shape++)
      if (vf_case("symmetry %d to %d at a short frame, shape %d", p, !p, shape))
      {
        mt_t m = mt_new("S", 1, 3);
        fd_ch *x = &m.s->ch[0];
        rng = 5;
        mt_begin(&m);
        for (int f = 0; f < 4; f++)
        {
          static const int w[4] = {W_START, W_SHORT, W_STOP, W_LONG};
          x->win = w[f];
          x->shape = shape;
          x->al_prev = f < 2 ? p : !p;
          x->al_curr = f < 1 ? p : !p;
          fd_gain(x, 135);
          content(x, 3, f, 0);
          mt_frame(&m, f == 0);
        }
        mt_check(&m, "short-symmetry-change");
        vf_nontriv++;
        mt_free(&m);
      }
  return vf_finish();
}
