/* P13: bit fields.  Enumerated on the real reader: length of the data x start position x every sequence of two operations
 * (read, look, skip, 32-bit read, of every width), every escape-coded value of every form the syntax uses, every writer
 * width and position.  Oracle: the bits themselves.  The data end at an inaccessible page.  On the whole decoder: every
 * point at which the data can stop, with every byte behind them poisoned. */
#include "vf.h"
#include "streams.h"
#include <setjmp.h>
#include <sys/mman.h>
#include "ia_core_coder_bitbuffer.h"

extern VOID ia_core_coder_read_escape_value(ia_bit_buf_struct *, UWORD32 *, UWORD32, UWORD32, UWORD32);
extern VOID ia_core_coder_create_init_bit_buf(ia_bit_buf_struct *, UWORD8 *, WORD32);
extern VOID ia_core_coder_mpeghd_read_byte_corr1(UWORD8 **, WORD32 *, WORD32 *, UWORD8 *);
extern WORD32 impeghd_create_write_bit_buffer(ia_write_bit_buf_struct *, UWORD8 *, UWORD32, WORD32);
extern UWORD8 impeghd_write_bits_buf(ia_write_bit_buf_struct *, UWORD32, UWORD8);
extern WORD32 impeghd_write_escape_value(ia_write_bit_buf_struct *, UWORD32, UWORD32, UWORD32, UWORD32);
extern UWORD32 ia_core_coder_read_bits_buf_32(ia_bit_buf_struct *);

static uint8_t *page_end; /* first byte that may not be touched */
static jmp_buf jb;
static ia_bit_buf_struct B;
static uint8_t ref[4096];
static uint32_t refbits(long pos, int n)
{
  uint32_t v = 0;
  for (int i = 0; i < n; i++)
    v = v << 1 | (ref[(pos + i) >> 3] >> (7 - ((pos + i) & 7)) & 1);
  return v;
}
static void fillref(int pat)
{
  uint32_t s = 1;
  for (int i = 0; i < 64; i++)
  {
    s = s * 1664525u + 1013904223u;
    ref[i] = pat == 0 ? 0xff : pat == 1 ? (uint8_t)(s >> 24) : pat == 2 ? (uint8_t)~(s >> 24) : pat == 3 ? 0 : 0;
  }
  if (pat >= 4)
    ref[(pat - 4) >> 3] = 0x80 >> ((pat - 4) & 7);
}
static void open_at(int len, int start)
{
  uint8_t *p = page_end - len;
  memcpy(p, ref, len);
  ia_core_coder_create_init_bit_buf(&B, p, len);
  B.xmpeghd_jmp_buf = &jb;
  if (start)
    ia_core_coder_skip_bits_buf(&B, start);
}
enum { OP_READ, OP_SHOW, OP_SKIP, OP_READ32 };
static const char *opn[] = {"read", "look", "skip", "read 32-bit"};
/* carries out one operation at pos; returns new pos, -1 when it stopped the call, -2 on failure */
static long step(int op, int n, long pos, long total)
{
  int jv = setjmp(jb);
  volatile uint32_t v = 0;
  long left = total - pos;
  int need = op == OP_READ32 ? 32 : n;
  vf_trans++;
  if (jv == 0)
  {
    if (op == OP_READ)
      v = (uint32_t)ia_core_coder_read_bits_buf(&B, n);
    else if (op == OP_SHOW)
      v = (uint32_t)ia_core_coder_show_bits_buf(&B, n);
    else if (op == OP_SKIP)
      ia_core_coder_skip_bits_buf(&B, n);
    else
      v = ia_core_coder_read_bits_buf_32(&B);
    if (need > left)
    {
      vf_fail("invented-data", "%s of %d bits at bit %ld of %ld returned %x", opn[op], need, pos, total, v);
      return -2;
    }
    if (op != OP_SKIP && v != refbits(pos, need))
    {
      vf_fail(op == OP_READ32 ? "wrong-bits-32" : "wrong-bits", "%s of %d bits at bit %ld gives %x, the stream has %x", opn[op], need, pos, v, refbits(pos, need));
      return -2;
    }
    return op == OP_SHOW ? pos : pos + need;
  }
  if (need <= left)
  {
    vf_fail("refused", "%s of %d bits at bit %ld of %ld stops with %x", opn[op], need, pos, total, jv);
    return -2;
  }
  if (!IS_INSUF(jv) && !is_fatal(jv))
  {
    vf_fail("odd-code", "%s of %d bits at bit %ld of %ld stops with %x", opn[op], need, pos, total, jv);
    return -2;
  }
  return -1;
}
static int drain(long pos, long total)
{
  int jv = setjmp(jb);
  static volatile long p;
  if (jv)
  {
    vf_fail("position", "%ld bits are said to be left at bit %ld of %ld", p, pos, total);
    return 0;
  }
  for (p = pos; p < total; p++)
  {
    uint32_t v = (uint32_t)ia_core_coder_read_bits_buf(&B, 1);
    if (v != refbits(p, 1))
    {
      vf_fail("position", "bit %ld reads wrong after an operation that should have ended at %ld of %ld", (long)p, pos, total);
      return 0;
    }
  }
  if (B.cnt_bits != 0)
  {
    vf_fail("count", "%ld bits counted as left at the end", (long)B.cnt_bits);
    return 0;
  }
  return 1;
}
static int nop(int len) { return 32 + 32 + len * 8 + 2 + 1; }
static void opof(int k, int *op, int *n)
{
  if (k < 32)
    *op = OP_READ, *n = k + 1;
  else if (k < 64)
    *op = OP_SHOW, *n = k - 31;
  else if (k == 64)
    *op = OP_READ32, *n = 32;
  else
    *op = OP_SKIP, *n = k - 65;
}
static void sequences(int depth)
{
  int lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 9}, nl = vf_thorough ? 9 : 9;
  for (int li = 0; li < nl; li++)
    for (int start = 0; start <= lens[li] * 8 && start < 8; start++)
      for (int pat = 0; pat < 4 + (depth == 1 ? 72 : 0); pat++)
      {
        int len = lens[li];
        if (!vf_case("%d bytes, from bit %d, pattern %d, all sequences of %d operations", len, start, pat, depth))
          continue;
        fillref(pat);
        vf_nontriv++;
        int N = nop(len), bad = 0, a, b, c;
        for (int i = 0; i < N && !bad; i++)
          for (int j = 0; j < (depth > 1 ? N : 1) && !bad; j++)
            for (int k = 0; k < (depth > 2 ? N : 1) && !bad; k++)
            {
              open_at(len, start);
              long pos = start, np;
              int s[3] = {i, j, k};
              for (int q = 0; q < depth; q++)
              {
                opof(s[q], &a, &b);
                np = step(a, b, pos, len * 8);
                c = np == -2;
                if (np < 0)
                {
                  bad |= c;
                  break;
                }
                pos = np;
              }
              if (!bad && np >= 0)
                bad |= !drain(pos, len * 8);
              else if (!bad)
                bad |= !drain(pos, len * 8); /* a refused operation moves nothing */
            }
        vf_outcome(vf_hash(ref, len, len * 100 + start));
      }
}
static void put(long *pos, uint32_t v, int n)
{
  for (int i = n - 1; i >= 0; i--, ++*pos)
  {
    uint8_t m = 0x80 >> (*pos & 7);
    if (v >> i & 1)
      ref[*pos >> 3] |= m;
    else
      ref[*pos >> 3] &= ~m;
  }
}
static long put_esc(long pos, uint32_t v, int a, int b, int c)
{
  uint32_t m1 = (1u << a) - 1, m2 = (1u << b) - 1;
  if (v < m1)
    put(&pos, v, a);
  else
  {
    put(&pos, m1, a);
    v -= m1;
    if (v < m2)
      put(&pos, v, b);
    else
    {
      put(&pos, m2, b);
      put(&pos, v - m2, c);
    }
  }
  return pos;
}
static void escapes(void)
{
  static const int f[][3] = {{1, 3, 0}, {1, 4, 4}, {2, 4, 8}, {3, 4, 0}, {3, 5, 0}, {3, 5, 6}, {4, 5, 0}, {4, 5, 6}, {4, 8, 16}, {5, 8, 0}, {5, 8, 16}, {8, 8, 12}, {3, 8, 8}, {2, 8, 32}, {11, 24, 24}, {7, 24, 24}};
  for (int k = 0; k < 16; k++)
    for (int start = 0; start < 8; start++)
    {
      int a = f[k][0], b = f[k][1], c = f[k][2];
      if (!vf_case("escape values of %d, %d, %d bits from bit %d", a, b, c, start))
        continue;
      vf_nontriv++;
      uint64_t max = (1ull << a) - 1 + (1ull << b) - 1 + (c ? (1ull << c) - 1 : 0), n = max + 1 < 70000 ? max + 1 : 70000;
      for (uint64_t i = 0; i < n + 200; i++)
      {
        uint64_t v = i < n ? i : max - (i - n);
        if (v > max || v > 0xffffffffull)
          continue;
        uint32_t got = 0;
        memset(ref, 0xC3, 16);
        long end = put_esc(start, (uint32_t)v, a, b, c);
        int len = (int)((end + 7) / 8);
        if (setjmp(jb))
        {
          vf_fail("escape-refused", "value %llu stops the call", (unsigned long long)v);
          break;
        }
        open_at(len, start);
        ia_core_coder_read_escape_value(&B, &got, a, b, c);
        vf_trans++;
        if (got != (uint32_t)v || len * 8 - end != B.cnt_bits)
        {
          vf_fail("escape", "value %llu reads as %u, %ld bits left of %ld", (unsigned long long)v, got, (long)B.cnt_bits, len * 8 - end);
          break;
        }
        /* one byte short */
        if (i % 97 == 0 && end > start)
        {
          int jv = setjmp(jb);
          if (!jv)
          {
            if ((len - 1) * 8 < start)
              continue;
            open_at(len - 1, start);
            ia_core_coder_read_escape_value(&B, &got, a, b, c);
            vf_fail("escape-invented", "value %llu read as %u from one byte too few", (unsigned long long)v, got);
            break;
          }
          else if (!IS_INSUF(jv) && !is_fatal(jv))
            vf_fail("odd-code", "stops with %x", jv);
        }
      }
    }
}
static void writer(void)
{
  for (int start = 0; start < 8; start++)
    for (int n = 1; n <= 32; n++)
    {
      if (!vf_case("writing %d bits at bit %d", n, start))
        continue;
      vf_nontriv++;
      for (int pat = 0; pat < 36; pat++)
      {
        uint32_t v = pat == 0 ? 0xffffffffu : pat == 1 ? 0 : pat == 2 ? 0xdeadbeefu : pat == 3 ? 0x21524110u : 1u << (pat - 4);
        if (n < 32)
          v &= (1u << n) - 1;
        for (int bg = 0; bg < 2; bg++)
        {
          ia_write_bit_buf_struct W;
          uint8_t *p = page_end - 16;
          memset(p, bg ? 0xff : 0, 16);
          memset(&W, 0, sizeof(W));
          impeghd_create_write_bit_buffer(&W, p, 16, 1);
          if (start)
            impeghd_write_bits_buf(&W, 0x55 & ((1 << start) - 1), (UWORD8)start);
          int r = impeghd_write_bits_buf(&W, v, (UWORD8)n);
          impeghd_write_bits_buf(&W, 5, 3);
          long pos = 0;
          memset(ref, bg ? 0xff : 0, 16);
          put(&pos, 0x55 & ((1 << start) - 1), start);
          put(&pos, v, n);
          put(&pos, 5, 3);
          vf_trans++;
          if (r != n || memcmp(p, ref, 16) || (long)W.cnt_bits != pos)
          {
            vf_fail("write", "%d bits %x written at bit %d: %02x%02x%02x%02x%02x%02x instead of %02x%02x%02x%02x%02x%02x", n, v, start, p[0], p[1], p[2], p[3], p[4], p[5], ref[0], ref[1], ref[2], ref[3], ref[4], ref[5]);
            return;
          }
        }
      }
    }
  static const int f[][3] = {{2, 4, 8}, {3, 5, 6}, {4, 8, 16}, {5, 8, 16}, {8, 8, 12}};
  for (int k = 0; k < 5; k++)
  {
    if (!vf_case("writing escape values of %d, %d, %d bits", f[k][0], f[k][1], f[k][2]))
      continue;
    int a = f[k][0], b = f[k][1], c = f[k][2];
    uint32_t max = (1u << a) - 1 + (1u << b) - 1 + (1u << c) - 1;
    vf_nontriv++;
    for (uint32_t v = 0; v <= max; v++)
    {
      ia_write_bit_buf_struct W;
      uint8_t *p = page_end - 16;
      int start = v % 8;
      memset(p, 0, 16);
      memset(ref, 0, 16);
      memset(&W, 0, sizeof(W));
      impeghd_create_write_bit_buffer(&W, p, 16, 1);
      if (start)
        impeghd_write_bits_buf(&W, 0, (UWORD8)start);
      int r = impeghd_write_escape_value(&W, v, a, b, c);
      long end = put_esc(start, v, a, b, c);
      vf_trans++;
      if (memcmp(p, ref, 16) || r != end - start)
      {
        vf_fail("write-escape", "value %u written with %d bits, %ld expected", v, r, end - start);
        break;
      }
    }
  }
}
/* the loader of the arithmetic decoder */
static void loader(void)
{
  for (int len = 0; len <= 6; len++)
    for (int bits = 0; bits < 40; bits++)
    {
      if (!vf_case("loading for %d used bits with %d bytes left", bits, len))
        continue;
      vf_nontriv++;
      fillref(1);
      uint8_t *p = page_end - len, *q = p;
      memcpy(p, ref, len);
      WORD32 pos = bits, word = 0x13579bdf;
      uint32_t want = 0x13579bdf;
      int k = bits / 8, t = k < len ? k : len;
      for (int i = 0; i < t; i++)
        want = want << 8 | ref[i];
      if (len == 0)
        q = page_end, p = q;
      ia_core_coder_mpeghd_read_byte_corr1(&q, &pos, &word, page_end - 1);
      vf_trans++;
      if ((uint32_t)word != want || q != p + t || pos != bits % 8 + (k - t) * 8)
        vf_fail("loader", "%d used bits, %d bytes left: word %x instead of %x, %d bytes taken, %d bits open", bits, len, word, want, (int)(q - p), pos);
    }
}
#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#endif
/* whole decoder: the delivery stops at every byte */
static long stop_at;
static int deliver_until(void *self, int space, int call)
{
  dec_t *d = (dec_t *)self;
  (void)call;
  long n = stop_at - d->pos;
  return n > space ? space : n < 0 ? 0 : (int)n;
}
static void poison(dec_t *d, int on)
{
#ifdef HAVE_ASAN
  uint8_t *ib = (uint8_t *)d->out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
  int size = (int)d->out.ui_inp_buf_size;
  if (on)
    ASAN_POISON_MEMORY_REGION(ib + d->have, size - d->have);
  else
    ASAN_UNPOISON_MEMORY_REGION(ib + d->have, size - d->have);
#else
  (void)d;
  (void)on;
#endif
}
static void truncated(int id, int conf)
{
  blob st = st_build(id, 6);
  dec_t R, D;
  dec_defaults(&R);
  dconf_apply(&R, &dconfs[conf]);
  dec_all(&R, st, 0);
  dec_close(&R);
  for (long cut0 = 1; cut0 < st.n; cut0 += 16)
  {
    if (!vf_case("%s, decoder %d, the data stop after each of the bytes %ld to %ld", st_name[id], conf, cut0, cut0 + 15))
      continue;
    dec_defaults(&D);
    dconf_apply(&D, &dconfs[conf]);
    D.st = st;
    if (is_fatal(dec_create(&D)))
    {
      vf_fail("create", "refused");
      break;
    }
    /* one decoder that is offered one byte more after each refusal, the rest of its buffer poisoned */
    int e = 0, guard = 0;
    long cut = cut0;
    uint8_t *ib = (uint8_t *)D.out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
    while (cut < cut0 + 16 && cut <= st.n)
    {
      if (++guard > 4000)
      {
        vf_fail("hang", "no progress at byte %ld", cut);
        break;
      }
      if (D.pos < cut)
      {
        memcpy(ib + D.have, st.d + D.pos, cut - D.pos);
        D.have += (int)(cut - D.pos);
        D.pos = cut;
      }
      if (D.have == 0)
      {
        cut++;
        continue;
      }
      D.in.num_inp_bytes = D.have;
      D.out.i_bytes_consumed = 0;
      D.out.num_out_bytes = 0;
      al_cur = &D.al;
      poison(&D, 1);
      int was = D.out.ui_init_done;
      e = was ? (int)ia_mpegh_dec_execute(D.obj, &D.in, &D.out) : (int)ia_mpegh_dec_init(D.obj, &D.in, &D.out);
      poison(&D, 0);
      vf_trans++;
      if (D.out.i_bytes_consumed < 0 || D.out.i_bytes_consumed > D.have)
      {
        vf_fail("consumed", "cut at %ld: %d bytes consumed of %d offered, code %x", cut, D.out.i_bytes_consumed, D.have, e);
        break;
      }
      if (IS_INSUF(e))
      {
        cut++;
        continue;
      }
      if (was)
      {
        if (is_fatal(e))
        {
          vf_fail("fatal", "cut at %ld: execute answers %x to data that are only incomplete", cut, e);
          break;
        }
        dec_append(&D);
      }
      dec_consume(&D, D.out.i_bytes_consumed);
      if (D.out.i_bytes_consumed == 0)
        cut++;
    }
    vf_nontriv++;
    if (D.npcm > R.npcm || memcmp(D.pcm, R.pcm, D.npcm))
      vf_fail("invented-audio", "what comes out of data that stop at byte %ld to %ld is not the beginning of the stream", cut0, cut0 + 15);
    vf_outcome(vf_hash(D.pcm, D.npcm, cut0));
    dec_close(&D);
    dec_free(&D);
  }
  dec_free(&R);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  const char *part = argc > 1 ? argv[argc - 1] : "";
  (void)part;
#ifndef P13_DEC
  uint8_t *m = (uint8_t *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m + 4096, 4096, PROT_NONE);
  page_end = m + 4096;
  sequences(1);
  sequences(2);
  if (vf_thorough)
    sequences(3);
  escapes();
  writer();
  loader();
#else
  for (int id = 0; id < ST_ALL; id++)
    for (int c = 0; c < (vf_thorough ? NDCONF : 1); c++)
      if (dconf_ok(id, c))
        truncated(id, c);
#endif
  return vf_finish();
}
