/* Not a check: finds the access units of junk.h (drawn at random behind a chosen first part, cut where the decoder stops
   reading) and prints them: mkjunk K [salt].  The streams serve checks that compare the decoder with itself. */
#define JK_MAKE
#include "vf.h"
#include "streams.h"
#define MAXB 3000
static uint32_t rs;
static uint32_t rnd(void)
{
  rs ^= rs << 13;
  rs ^= rs >> 17;
  return rs ^= rs << 5;
}
static long rec[64], out[64];
static int nrec;
static void watch(dec_t *d, int executing)
{
  (void)executing;
  if (nrec < 64)
  {
    out[nrec] = d->out.num_out_bytes;
    rec[nrec++] = d->pos - d->have + d->out.i_bytes_consumed;
  }
}
int main(int argc, char **argv)
{
  dec_watch = watch;
  for (int k = 0; k < JK_HOA; k++)
  {
    if (argc > 1 && atoi(argv[1]) != k)
      continue;
    sb_t *s = sb_new();
    jk_cfg(s, k);
    bw_t c;
    bw_init(&c);
    sy_write_cfg(&s->cfg, &c);
    uint8_t *st = (uint8_t *)calloc(1, 1 << 20);
    long np = bw_len(&c);
    memcpy(st, c.d, np);
    for (int f = 0; f < JK_F; f++)
    {
      int done = 0;
      for (int t = 0; t < 3000 && !done; t++)
      {
        rs = 1 + (argc > 2 ? atoi(argv[2]) : 0) * 31337 + k * 7919 + f * 104729 + t * 1299709;
        for (int i = 0; i < 20; i++)
          rnd();
        bw_t b;
        bw_init(&b);
        jk_head(k, f, &b, rnd());
        while (bw_len(&b) < MAXB)
          bw_put(&b, rnd() >> 24, 8);
        memcpy(st + np, b.d, MAXB);
        bw_free(&b);
        blob x = {st, np + MAXB};
        dec_t d;
        dec_defaults(&d);
        d.in.ui_mhas_flag = 0;
        d.in.ui_raw_flag = 1;
        nrec = 0;
        dec_create(&d);
        d.st = x;
        double p = 0;
        long before = 0;
        if (!d.err_create && !dec_start(&d))
          for (int i = 0; i <= f; i++)
          {
            before = d.npcm;
            dec_run(&d, 1);
          }
        for (long i = before; i + 1 < d.npcm; i += 2)
        {
          int16_t v;
          memcpy(&v, d.pcm + i, 2);
          p += (double)v * v;
        }
        p = d.npcm > before ? sqrt(p * 2 / (d.npcm - before)) : -1;
        long n = nrec == f + 2 ? rec[f + 1] - np : -1;
        if (n > 3 && n < 900 && p >= (f ? 20 : 0) && p < 9000 && out[f + 1] > 0)
        {
          done = 1;
          printf("{%d,%d,%ld,\"", k, f, n);
          for (int i = 0; i < n; i++)
            printf("\\x%02x", st[np + i]);
          printf("\"},\n");
          fflush(stdout);
          fprintf(stderr, "k %d f %d try %d: %ld bytes, rms %g\n", k, f, t, n, p);
          np += n;
        }
        dec_close(&d);
        dec_free(&d);
      }
      if (!done)
      {
        fprintf(stderr, "k %d f %d: nothing found\n", k, f);
        break;
      }
    }
  }
  return 0;
}
