/* P22: every line x kernel x transform length x channel element, one line per frame; by the linearity of the transform
 * the responses of all single lines decide it for every spectrum; dense spectra confirm that linearity. */
#include "vf.h"
#include "model.h"

static void one_line(fd_ch *f, int fsi, int line, int w, int q)
{
  const int16_t *t = f->win == W_SHORT ? gold_sfb_s[fsi] : gold_sfb_l[fsi];
  int nb = f->win == W_SHORT ? gold_nsfb_s[fsi] : gold_nsfb_l[fsi];
  memset(f->q, 0, sizeof(f->q));
  f->max_sfb = 0;
  while (f->max_sfb < nb && (f->max_sfb == 0 || t[f->max_sfb - 1] <= line))
    f->max_sfb++;
  f->q[(f->win == W_SHORT ? 128 * w : 0) + line] = q;
}
/* the symmetries that make every frame use the kernel (the even frames for the mixed kernels) */
static void kern(fd_ch *f, int kernel, int fr)
{
  int odd = fr & 1;
  if (kernel == 0 || kernel == 3)
    f->al_prev = f->al_curr = kernel & 1;
  else
  {
    /* frame fr has kernel 1 (prev 0, curr 1) when fr is even, 2 when odd, or the other way round */
    int k1 = (kernel == 1) ^ odd;
    f->al_prev = !k1;
    f->al_curr = k1;
  }
}
int main(int argc, char **argv)
{
  static const struct
  {
    const char *els;
    int cicp;
  } lay[] = {{"S", 1}, {"P", 2}, {"PSLP", 6}};
  vf_init(argc, argv);
  for (int l = 0; l < 3; l++)
    for (int fsi = 3; fsi <= (vf_thorough ? 8 : 4); fsi++)
      for (int kernel = 0; kernel < 4; kernel++)
        for (int blk = 0; blk < 8; blk++)
          if (vf_case("%s fs %d kernel %d lines %d..%d", lay[l].els, gold_fs[fsi], kernel, blk * 128, blk * 128 + 127))
          {
            mt_t m = mt_new(lay[l].els, lay[l].cicp, fsi);
            mt_begin(&m);
            for (int fr = 0; fr < 129; fr++)
            {
              for (int c = 0; c < m.r.nch; c++)
              {
                fd_ch *f = &m.s->ch[c];
                int lfe = lay[l].els[2] && c == 3;
                int line = lfe ? (blk * 128 + fr) % 20 : (blk * 128 + fr + 37 * c) % 1024;
                fd_gain(f, 140);
                if (lfe)
                  kern(f, 0, fr);
                else
                  kern(f, kernel, fr);
                one_line(f, fsi, line, 0, fr == 128 ? 0 : (line & 1) ? -9 : 9);
              }
              mt_frame(&m, fr % 5 == 0 || kernel == 1 || kernel == 2);
            }
            mt_check(&m, "line");
            vf_nontriv++;
            mt_free(&m);
          }
  /* short transforms: every line of every window, every grouping of one window */
  for (int l = 0; l < 3; l++)
    for (int fsi = 3; fsi <= (vf_thorough ? 8 : 4); fsi++)
      for (int kernel = 0; kernel < 4; kernel += 3)
        for (int w = 0; w < 8; w++)
          if (vf_case("%s fs %d kernel %d window %d", lay[l].els, gold_fs[fsi], kernel, w))
          {
            mt_t m = mt_new(lay[l].els, lay[l].cicp, fsi);
            mt_begin(&m);
            for (int fr = 0; fr < 130; fr++)
            {
              for (int c = 0; c < m.r.nch; c++)
              {
                fd_ch *f = &m.s->ch[c];
                int lfe = lay[l].els[2] && c == 3, line = lfe ? fr % 20 : (fr + 11 * c) % 128;
                f->win = fr == 0 ? W_START : W_SHORT;
                f->grouping = (fr * 5 + w) & 127;
                fd_gain(f, 140);
                kern(f, lfe ? 0 : kernel, fr);
                if (lfe)
                  f->win = W_LONG;
                if (lfe)
                  one_line(f, fsi, line, 0, 9);
                else
                  one_line(f, fsi, fr == 0 ? 3 : line, w, (line & 1) ? -9 : 9);
                if (f->max_sfb > 15 && f->win == W_SHORT)
                  f->max_sfb = 15;
              }
              mt_frame(&m, fr % 5 == 0);
            }
            mt_check(&m, "short-line");
            vf_nontriv++;
            mt_free(&m);
          }
  /* every global gain and sign on one line per gain, long and short; dense spectra */
  for (int fsi = 3; fsi <= 4; fsi++)
    for (int sh = 0; sh < 2; sh++)
      for (int sg = -1; sg <= 1; sg += 2)
        if (vf_case("gains fs %d %s sign %d", gold_fs[fsi], sh ? "short" : "long", sg))
        {
          mt_t m = mt_new("S", 1, fsi);
          fd_ch *f = &m.s->ch[0];
          mt_begin(&m);
          if (sh)
          {
            f->win = W_START;
            f->max_sfb = 0;
            mt_frame(&m, 1);
          }
          for (int g = 0; g < (sh ? 176 : 190); g++)
          {
            f->win = sh ? W_SHORT : W_LONG;
            f->grouping = g & 127;
            fd_gain(f, g);
            one_line(f, fsi, 2 + (g * 7) % 100, g & 7, sg * (g > 170 ? 1 : 9));
            mt_frame(&m, g % 3 == 0);
          }
          mt_check(&m, "gain");
          vf_nontriv++;
          mt_free(&m);
        }
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int l = 0; l < 3; l++)
      for (int kernel = 0; kernel < 4; kernel++)
        for (int dens = 1; dens <= 3; dens++)
          if (vf_case("dense %s fs %d kernel %d density %d", lay[l].els, gold_fs[fsi], kernel, dens))
          {
            mt_t m = mt_new(lay[l].els, lay[l].cicp, fsi);
            uint32_t rng = 77 + kernel + 5 * dens;
            mt_begin(&m);
            for (int fr = 0; fr < 24; fr++)
            {
              for (int c = 0; c < m.r.nch; c++)
              {
                fd_ch *f = &m.s->ch[c];
                int lfe = lay[l].els[2] && c == 3;
                fd_gain(f, 130);
                f->max_sfb = lfe ? 5 : gold_nsfb_l[fsi];
                kern(f, lfe ? 0 : kernel, fr);
                memset(f->q, 0, sizeof(f->q));
                for (int i = 0; i < (lfe ? 20 : 1024); i++)
                {
                  rng = rng * 1664525u + 1013904223u;
                  if ((rng >> 28) < (unsigned)dens * 5)
                    f->q[i] = (int)((rng >> 10) % 31) - 15;
                }
              }
              mt_frame(&m, fr % 4 == 0 || kernel == 1 || kernel == 2);
            }
            mt_check(&m, "dense");
            vf_nontriv++;
            mt_free(&m);
          }
  return vf_finish();
}
