/* A packet stream taken apart into its packets. */
#ifndef PACKETS_H
#define PACKETS_H
typedef struct { const uint8_t *p; long n; int type; const uint8_t *pay; long npay; } pkt;
typedef struct { blob b; pkt cfg, fr[64]; int nfr; } parts;
static uint32_t rd(const uint8_t *p, long *bit, int n)
{
  uint32_t v = 0;
  for (; n--; ++*bit)
    v = v << 1 | (p[*bit >> 3] >> (7 - (*bit & 7)) & 1);
  return v;
}
static uint32_t esc(const uint8_t *p, long *bit, int a, int b, int c)
{
  uint32_t v = rd(p, bit, a);
  if (v == (1u << a) - 1)
  {
    uint32_t w = rd(p, bit, b);
    v += w;
    if (w == (1u << b) - 1)
      v += rd(p, bit, c);
  }
  return v;
}
static parts take_apart(blob b)
{
  parts r;
  memset(&r, 0, sizeof(r));
  r.b = b;
  for (long o = 0; o < b.n;)
  {
    long bit = o * 8;
    pkt k;
    k.type = esc(b.d, &bit, 3, 8, 8);
    esc(b.d, &bit, 2, 8, 32);
    long len = esc(b.d, &bit, 11, 24, 24);
    k.p = b.d + o;
    bit = (bit + 7) & ~7L;
    k.n = (bit >> 3) + len - o;
    k.pay = b.d + (bit >> 3);
    k.npay = len;
    if (k.type == MH_CFG && !r.cfg.p)
      r.cfg = k;
    if (k.type == MH_FRAME)
      r.fr[r.nfr++] = k;
    o += k.n;
  }
  return r;
}
#endif
