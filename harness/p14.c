/* P14: damaged streams.  Every truncation, every flipped bit and every byte set to either extreme of a library of streams is
 * offered to a decoder built with address, bounds and division checking; each in a process of its own, whose report (if the
 * code faults, traps, hangs or breaks a rule of the interface) becomes the violation. */
#include "vf.h"
#include "streams.h"
#include "packets.h"
#include <sanitizer/asan_interface.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <errno.h>
const char *__asan_default_options(void) { return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }
const char *__ubsan_default_options(void) { return "print_stacktrace=1"; }
static dec_t D;
static blob base;
static char rep[1 << 16];
static struct { int done, out, e_init, e_exec; } *fate; /* shared with the child */

/* ---- in the child ---- */
static void say(const char *sig, const char *fmt, ...)
{
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(b, sizeof b, "@%s@", sig);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  b[n++] = '\n';
  if (write(2, b, n) < 0)
    _exit(9);
  _exit(8);
}
static void step(int max)
{
  uint8_t *ib = (uint8_t *)D.out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
  int size = (int)D.out.ui_inp_buf_size, idle = 0;
  al_cur = &D.al;
  for (int k = 0; k < max; k++)
  {
    int n = size - D.have;
    if (n > D.st.n - D.pos)
      n = (int)(D.st.n - D.pos);
    memcpy(ib + D.have, D.st.d + D.pos, n);
    D.pos += n;
    D.have += n;
    if (!D.have)
      break;
    D.in.num_inp_bytes = D.have;
    D.out.i_bytes_consumed = 0;
    D.out.num_out_bytes = 0;
    int was = D.out.ui_init_done;
    ASAN_POISON_MEMORY_REGION(ib + D.have, size - D.have);
    int e = was ? (int)ia_mpegh_dec_execute(D.obj, &D.in, &D.out) : (int)ia_mpegh_dec_init(D.obj, &D.in, &D.out);
    ASAN_UNPOISON_MEMORY_REGION(ib + D.have, size - D.have);
    int c = D.out.i_bytes_consumed;
    if (was)
      fate->e_exec = e, fate->out += D.out.num_out_bytes > 0;
    else
      fate->e_init = e, fate->done |= D.out.ui_init_done;
    if (c < 0 || c > D.have)
      say("consumed", "%d bytes consumed of %d offered by %s, code %x", c, D.have, was ? "execute" : "init", e);
    if (was && (D.out.num_out_bytes < 0 || (unsigned)D.out.num_out_bytes > D.out.mem_info_table[IA_MEMTYPE_OUTPUT].ui_size))
      say("output", "%d bytes of output in a buffer of %u", D.out.num_out_bytes, D.out.mem_info_table[IA_MEMTYPE_OUTPUT].ui_size);
    memmove(ib, ib + c, D.have - c);
    D.have -= c;
    if (!c && was == (int)D.out.ui_init_done && (D.pos >= D.st.n || ++idle > 3))
      break;
  }
}
static void child(blob st, int cpu)
{
  struct rlimit rl = {cpu, cpu + 1};
  setrlimit(RLIMIT_CPU, &rl);
  signal(SIGALRM, SIG_DFL);
  vf_arm(0);
  D.st = st;
  step(24);
  if (dec_close(&D))
    say("delete", "code from delete");
  if (al_live(&D.al) || D.al.bad_free || D.al.double_free || D.al.guard_bad)
    say("leak", "%d blocks live, %d wrong frees, %d double, %d guards", al_live(&D.al), D.al.bad_free, D.al.double_free, D.al.guard_bad);
  _exit(0);
}
/* ---- in the parent ---- */
static int seen_n;
static uint64_t seen[512];
static void report(int status, int n, const char *what)
{
  char sig[160] = "died", fn[96] = "?", kind[64] = "death";
  rep[n] = 0;
  char *p = strchr(rep, '@');
  if (p && (!strstr(rep, "ERROR: AddressSanitizer")) && !strstr(rep, "runtime error"))
  {
    char *q = strchr(p + 1, '@');
    snprintf(sig, sizeof sig, "%.*s", (int)(q - p - 1), p + 1);
    rep[strcspn(rep, "\n")] = 0;
    snprintf(kind, sizeof kind, "%s", "");
  }
  else
  {
    if (WIFSIGNALED(status))
      snprintf(kind, sizeof kind, WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL ? "hang" : "signal%d", WTERMSIG(status));
    if ((p = strstr(rep, "ERROR: AddressSanitizer: ")))
      sscanf(p + 25, "%40[a-zA-Z-]", kind);
    else if ((p = strstr(rep, "runtime error: ")))
      sscanf(p + 15, "%40[a-zA-Z -]", kind);
    for (char *q = kind; *q; q++)
      if (*q == ' ')
        *q = '-';
    while (strlen(kind) && kind[strlen(kind) - 1] == '-')
      kind[strlen(kind) - 1] = 0;
    for (p = p ? p : rep; (p = strstr(p, " in ")); p += 4)
      if (!strncmp(p + 4, "impegh", 6) || !strncmp(p + 4, "ia_", 3) || !strncmp(p + 4, "ixheaac", 7))
      {
        sscanf(p + 4, "%90[a-zA-Z0-9_]", fn);
        break;
      }
    snprintf(sig, sizeof sig, "%s %s", kind, fn);
  }
  if (getenv("VF_REP"))
    fputs(rep, stderr);
  uint64_t h = vf_hash(sig, strlen(sig), 0);
  for (int i = 0; i < seen_n; i++)
    if (seen[i] == h)
      return;
  if (seen_n < 512)
    seen[seen_n++] = h;
  char *e = strstr(rep, "ERROR: Addr");
  if (!e)
    e = strstr(rep, "runtime error");
  if (!e)
    e = rep;
  e[strcspn(e, "\n")] = 0;
  if (getenv("VF_DUMP"))
  {
    FILE *f = fopen(getenv("VF_DUMP"), "wb");
    fwrite(D.st.d, 1, D.st.n, f);
    fclose(f);
  }
  vf_fail(sig, "%s: %s", what, e);
}
static void try_it(blob st, const char *what)
{
  static int nul = -1;
  int fd[2];
  if (nul < 0)
    nul = open("/dev/null", O_WRONLY);
  if (pipe2(fd, 0))
    exit(7);
  fflush(stdout);
  vf_arm(vf_limit);
  if (!fate)
    fate = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(fate, 0, sizeof *fate);
  pid_t p = fork();
  if (!p)
  {
    dup2(fd[1], 2);
    dup2(nul, 1);
    vf_done = 1;
    child(st, 5);
  }
  close(fd[1]);
  int n = 0, r;
  while (n < (int)sizeof rep - 1 && ((r = (int)read(fd[0], rep + n, sizeof rep - 1 - n)) > 0 || (r < 0 && errno == EINTR)))
    n += r > 0 ? r : 0;
  close(fd[0]);
  int s = 0;
  while (waitpid(p, &s, 0) < 0 && errno == EINTR)
    ;
  vf_trans++;
  vf_nontriv += fate->done;
  vf_outcome(vf_hash(fate, sizeof *fate, s));
  if (getenv("VF_FATE"))
    fprintf(stderr, "FATE %s | %s: init %x%s exec %x, %d frames\n", vf_desc, what, fate->e_init, fate->done ? " done" : "", fate->e_exec, fate->out);
  D.st = st;
  rep[n] = 0;
  if (s || strstr(rep, "runtime error"))
    report(s, n, what);
}
static void ready(const dconf *c)
{
  dec_defaults(&D);
  D.al.fill = -1; /* fresh pages, zero until touched */
  dconf_apply(&D, c);
  if (is_fatal(dec_create(&D)))
    vf_fail("create", "code %x", D.err_create);
  for (int i = 0; i < D.al.n; i++) /* fewer page faults in the children */
    if (D.al.b[i].live)
      madvise((void *)(((uintptr_t)D.al.b[i].raw0 + 4095) & ~4095ul), D.al.b[i].n & ~4095ul, MADV_HUGEPAGE);
}
/* ---- arbitrary contents in a slot of an otherwise sound stream ---- */
enum { S_CFGEXT, S_ELCFG, S_ELFRAME, S_PACKET, S_CFG, S_FRAME, S_MANY, S_EARCON, S_N };
static const char *s_name[] = {"configuration extension", "configuration of extension element", "payload of extension element",
                               "packet", "configuration after byte", "frame of stream", "many elements of type",
                               "earcon and samples, variant"};
enum { CO_IGF_MONO, CO_IGF_STEREO, CO_LPD_MONO, CO_LPD_STEREO, CO_N };
static const int s_types[S_N][24] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 20, 103, 104, 106, 107, -1},
    {0, 3, 4, 5, 7, 8, 9, 13, 14, 6, -1},
    {0, 3, 4, 5, 7, 8, 9, 13, 14, 6, -1},
    {0, 3, 9, 12, 13, 17, 18, 19, 20, 21, 22, 300, -1},
    {1, 2, 3, 4, 5, 6, 8, -1},
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 200, 201, 202, 203, -1},
    {0, 3, 4, 5, 7, 8, 9, 13, 14, 6, 100, 101, 102, -1},
    {0, 1, 2, 3, 4, 5, 6, 7, -1},
};
#define NTAIL 8
static void content(uint8_t *g, int n, int b0, int tail)
{
  static const uint8_t pat[4] = {0x00, 0xFF, 0x55, 0x92};
  sx_rng = 77777u * (uint32_t)(tail + 1);
  for (int i = 0; i < n; i++)
    g[i] = tail < 4 ? pat[tail] : tail == 4 ? (uint8_t)(i * 37) : (uint8_t)sx_next();
  g[0] = (uint8_t)b0;
}
static void elements(sb_t *s, int type, const uint8_t *cfg, int ncfg)
{
  static uint8_t mask[1] = {0xC0};
  static bw_t om;
  if (!om.d)
    bw_init(&om), om_cfg(&om, 0, 0, 0), bw_align(&om);
  if (type == EXT_OAM || type == EXT_ENHOAM || type == EXT_PRODMETA)
  {
    sy_cfg_default(&s->cfg, 6);
    if (type == EXT_OAM)
    {
      sy_add_group(&s->cfg, SIG_OBJ, 2);
      sy_add_el(&s->cfg, EL_SCE), sy_add_el(&s->cfg, EL_SCE);
    }
    else
      ob_add(s, 2, 0, 0, 0);
  }
  else if (type == EXT_HOA)
  {
    sy_cfg_default(&s->cfg, 6);
    sy_add_group(&s->cfg, SIG_HOA, 4);
    for (int i = 0; i < 4; i++)
      sy_add_el(&s->cfg, EL_SCE);
  }
  else
  {
    sx_layout(s, 2, "P");
    if (type == EXT_PREROLL)
    {
      s->cfg.el[1] = s->cfg.el[0];
      memset(&s->cfg.el[0], 0, sizeof(sy_el));
      s->cfg.nel = 2;
    }
  }
  sy_el *e = type == EXT_PREROLL ? &s->cfg.el[0] : sy_add_el(&s->cfg, EL_EXT);
  e->type = EL_EXT;
  e->ext_type = type;
  if (cfg)
  {
    e->ext_cfg = cfg;
    e->ext_cfg_len = ncfg;
  }
  else if (type == EXT_MCT)
    e->ext_cfg = mask, e->ext_cfg_len = 1;
  else if (type == EXT_OAM)
    e->ext_cfg = om.d, e->ext_cfg_len = bw_len(&om);
  else
  {
    static uint8_t zero[16];
    e->ext_cfg = zero;
    e->ext_cfg_len = type == EXT_PREROLL || type == EXT_FILL ? 0 : 8;
  }
}
static void some_frames(sb_t *s, int n)
{
  sb_channels(s);
  for (int f = 0; f < n; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      s->ch[c].arith_reset = 1;
      sx_fill(&s->ch[c], s->cfg.fs_idx, f * 40 + c, 8);
    }
    sb_frame(s, f == 0);
  }
}
static blob garbage(int slot, int type, const uint8_t *g, int n)
{
  sb_t *s = sb_new();
  bw_t c;
  bw_init(&c);
  blob r;
  if (slot == S_FRAME && type >= 200)
  {
    int k = type - 200;
    sx_layout(s, k & 1 ? 2 : 1, k & 1 ? "P" : "S");
    sy_el *e = &s->cfg.el[0];
    if (k < 2)
      e->enf = e->igf_enf = e->igf_high = e->igf_white = 1, e->igf_start = 8, e->igf_stop = 6;
    else
      e->fb_lpd = 1, e->lpd_stereo = k & 1;
    mhas_sync(&s->o);
    sb_config(s);
    for (int f = 0; f < 3; f++)
      mhas_packet(&s->o, MH_FRAME, s->label, g, n);
    r.d = sb_take(s, &r.n);
  }
  else if (slot == S_FRAME)
  {
    blob b = st_build(type, 2);
    parts pt = take_apart(b);
    bw_bytes(&s->o, b.d, pt.fr[0].p + pt.fr[0].n - b.d);
    mhas_packet(&s->o, MH_FRAME, 1, g, n);
    bw_bytes(&s->o, pt.fr[1].p, pt.fr[1].n);
    mhas_packet(&s->o, MH_FRAME, 1, g, n);
    free(b.d);
    r.d = sb_take(s, &r.n);
  }
  else if (slot == S_CFG)
  {
    blob b = st_build(ST_51, 2);
    parts pt = take_apart(b);
    mhas_sync(&s->o);
    bw_bytes(&c, pt.cfg.pay, type);
    bw_bytes(&c, g, n);
    mhas_packet(&s->o, MH_CFG, 1, c.d, bw_len(&c));
    bw_bytes(&s->o, pt.fr[0].p, pt.fr[0].n);
    bw_bytes(&s->o, pt.fr[1].p, pt.fr[1].n);
    free(b.d);
    r.d = sb_take(s, &r.n);
  }
  else if (slot == S_EARCON)
  { /* type: bit 0 speaker layout instead of position, bit 1 target layout differs, bit 2 configuration announces many signals */
    static const int sizes[8] = {0, 1, 2, 3, 4, 5, 1025, 65535}, nsig[8] = {1, 2, 12, 23, 24, 25, 64, 128};
    int fsz = g[0] & 7, bits = g[0] >> 3 & 7, att = g[0] >> 6, size = sizes[g[1] & 7], ns = type & 4 ? nsig[g[2] & 7] : 1 + (g[2] & 1);
    blob b = st_build(type & 2 ? ST_51 : ST_STEREO, 4);
    parts pt = take_apart(b);
    bw_bytes(&s->o, b.d, pt.fr[0].p + pt.fr[0].n - b.d);
    bw_put(&c, 0, 7), bw_put(&c, 0, 1), bw_put(&c, 3, 7), bw_put(&c, 1, 4), bw_put(&c, 1, 1);
    bw_put(&c, type & 1 ? 0 : 1, 2);
    if (type & 1)
      bw_put(&c, type & 2 ? 6 : 2, 7);
    else
      bw_put(&c, g[3], 8), bw_put(&c, g[4] & 63, 6), bw_put(&c, g[5], 9);
    bw_put(&c, 0, 2);
    mhas_packet(&s->o, 19, 1, c.d, bw_len(&c));
    for (int again = 0; again < 2; again++)
    {
      bw_free(&c), bw_init(&c);
      bw_put(&c, ns - 1, 7), bw_put(&c, 0, 1), bw_put(&c, 3, 5), bw_put(&c, bits, 3), bw_put(&c, fsz, 3);
      if (fsz == 5)
        bw_put(&c, size, 16);
      for (int i = 0; i < ns; i++)
        bw_put(&c, i, 7);
      bw_put(&c, 100, 8), bw_put(&c, att, 2);
      if (att == 1)
        bw_put(&c, 7, 8);
      mhas_packet(&s->o, 20, 1, c.d, bw_len(&c));
      bw_free(&c), bw_init(&c);
      bw_put(&c, (again ? g[2] >> 1 : ns - 1) & 127, 7);
      for (int i = 0; i < ns; i++)
        bw_put(&c, i, 7);
      if (att == 2)
        bw_put(&c, 7, 8);
      if (fsz == 6)
        bw_put(&c, size, 16);
      for (int i = 0; i < 12 && bw_len(&c) < 6000; i++)
        bw_bytes(&c, g, n);
      bw_align(&c);
      mhas_packet(&s->o, 21, 1, c.d, bw_len(&c));
      bw_bytes(&s->o, pt.fr[1 + again].p, pt.fr[1 + again].n);
    }
    bw_bytes(&s->o, pt.fr[3].p, pt.fr[3].n);
    free(b.d);
    r.d = sb_take(s, &r.n);
  }
  else if (slot == S_PACKET)
  {
    blob b = st_build(ST_STEREO, 2);
    parts pt = take_apart(b);
    long a = pt.fr[0].p - b.d;
    bw_bytes(&s->o, b.d, a);
    mhas_packet(&s->o, type, 1, g, n);
    bw_bytes(&s->o, pt.fr[0].p, pt.fr[0].n);
    mhas_packet(&s->o, type, 1, g, n);
    bw_bytes(&s->o, pt.fr[1].p, pt.fr[1].n);
    free(b.d);
    r.d = sb_take(s, &r.n);
  }
  else
  {
    if (slot == S_CFGEXT && type > 100)
    { /* a downmix matrix the decoder is going to use: into stereo or 5.1, from 106 on with equalisers */
      bw_t x;
      int to51 = type % 3 == 2;
      sx_layout(s, to51 ? 12 : 6, to51 ? "SPLPP" : "SPLP");
      bw_init(&x);
      bw_put(&x, 1, 2);
      bw_put(&x, 1, 5);
      bw_put(&x, 1, 7);
      bw_put(&x, 1, 2);
      bw_put(&x, to51 ? 6 : 2, 6);
      bw_esc(&x, 0, 1, 3, 0);
      bw_esc(&x, 0, 1, 4, 4);
      bw_put(&x, 0, 5);
      bw_esc(&x, n * 8, 8, 8, 12);
      bw_put(&x, type >= 106 || g[0] >> 7, 1);
      bw_put(&x, g[0] & 127, 7);
      bw_bytes(&x, g + 1, n - 1);
      s->cfg.has_ext = 1;
      bw_init(&s->cfg.cfgext);
      bw_esc(&s->cfg.cfgext, 0, 2, 4, 8);
      bw_esc(&s->cfg.cfgext, 1, 4, 8, 16);
      bw_esc(&s->cfg.cfgext, bw_len(&x), 4, 8, 16);
      bw_bytes(&s->cfg.cfgext, x.d, bw_len(&x));
      bw_free(&x);
    }
    else if (slot == S_CFGEXT)
    {
      sx_layout(s, 2, "P");
      s->cfg.has_ext = 1;
      bw_init(&s->cfg.cfgext);
      bw_esc(&s->cfg.cfgext, 0, 2, 4, 8);
      bw_esc(&s->cfg.cfgext, type, 4, 8, 16);
      bw_esc(&s->cfg.cfgext, n, 4, 8, 16);
      bw_bytes(&s->cfg.cfgext, g, n);
    }
    else if (slot == S_MANY && type >= 100)
    { /* as many channels, objects or groups as the first byte says */
      int k = 1 + g[0] % 64;
      sy_cfg_default(&s->cfg, 6);
      if (type == 100)
        sy_add_group(&s->cfg, SIG_CH, k);
      else if (type == 101)
        sy_add_group(&s->cfg, g[1] & 1 ? SIG_OBJ : SIG_HOA, k);
      else
        for (int i = 0; i < k && i < SY_MAXGRP; i++)
          sy_add_group(&s->cfg, g[1] & 1 ? SIG_CH : i & 1 ? SIG_OBJ : SIG_HOA, 1);
      for (int i = 0; i < k && i < SY_MAXEL && i < 32; i++)
        sy_add_el(&s->cfg, EL_SCE);
    }
    else
      elements(s, type, slot == S_ELCFG ? g : 0, n);
    if (slot == S_MANY && type < 100)
      for (int i = 1; i < 1 + g[0] % 48 && s->cfg.nel < SY_MAXEL; i++)
        s->cfg.el[s->cfg.nel] = s->cfg.el[type == EXT_PREROLL ? 0 : s->cfg.nel - 1], s->cfg.nel++;
    mhas_sync(&s->o);
    sb_config(s);
    if (slot != S_CFGEXT && slot != S_MANY)
    {
      int el = type == EXT_PREROLL ? 0 : s->cfg.nel - 1;
      s->ext[el].present = 1;
      s->ext[el].n = n;
      memcpy(s->ext[el].d, g, n);
    }
    some_frames(s, 2);
    if (s->cfg.cfgext.d)
      bw_free(&s->cfg.cfgext);
    r.d = sb_take(s, &r.n);
  }
  bw_free(&c);
  sb_del(s);
  return r;
}
static int frames(void) { return vf_thorough ? 3 : 2; }

int main(int argc, char **argv)
{
  vf_init(argc, argv);
  char w[200];
  /* every bit of the configuration and of the frames, in chunks of 8 bytes */
  for (int id = 0; id < ST_ALL; id++)
    for (int c = 0; c < NDCONF; c++)
    {
      if (!dconf_ok(id, c) || (id == ST_DRC ? c != 8 && (!vf_thorough || c != 9) : vf_thorough ? c > 2 : c != id % 3))
        continue;
      base = st_build(id, id >= ST_JK ? 4 : frames());
      parts pt = take_apart(base);
      long ncfg = pt.cfg.p + pt.cfg.n - base.d, lim = vf_thorough || id == ST_DRC || (id >= ST_JK && id < ST_JK + JK_HOA) ? base.n : ncfg + 16;
      for (long at = 0; at < base.n; at += 8)
      {
        if (!vf_thorough && id >= ST_JK && (at / 8 + id) % 3)
          continue;
        if (at >= lim && (at / 8) % (vf_thorough ? 1 : 64) != (id * 5) % 64)
          continue;
        if (!vf_case("%s, decoder %s: each bit of bytes %ld to %ld flipped", st_name[id], dconfs[c].name, at, at + 7))
          continue;
        ready(&dconfs[c]);
        blob m;
        m.n = base.n;
        m.d = (uint8_t *)malloc(m.n);
        for (long k = at; k < at + 8 && k < base.n; k++)
          for (int b = 0; b < 10; b++)
          {
            memcpy(m.d, base.d, m.n);
            if (b < 8)
              m.d[k] ^= 0x80 >> b;
            else
              m.d[k] = b == 8 ? 0 : 255;
            if (m.d[k] == base.d[k])
              continue;
            snprintf(w, sizeof w, "byte %ld is %02x instead of %02x", k, m.d[k], base.d[k]);
            try_it(m, w);
          }
        free(m.d);
        dec_close(&D);
        dec_free(&D);
      }
      free(base.d);
    }
  /* each field given other values, alone and with bits of no meaning behind it for what it announces */
  for (int id = 0; id < st_count(); id++)
  {
    bw_mut.at = 0;
    free(st_build(id, 2).d);
    long ncfg = st_fields, nall = vf_thorough || id == ST_DRC ? bw_mut.n : ncfg;
    for (long k = 1; k <= nall; k++)
    {
      int c = id == ST_DRC ? 8 : id % 3;
      if (!dconf_ok(id, c))
        c = 0;
      if (!vf_case("%s, decoder %s: other values in field %ld%s", st_name[id], dconfs[c].name, k, k > ncfg ? " (frames)" : ""))
        continue;
      ready(&dconfs[c]);
      for (int how = 0; how < 6; how++)
        for (int junk = 0; junk < 4; junk++)
        {
          if (k > ncfg || !vf_thorough ? how == 2 || how > 3 || junk > 1 : 0)
            continue;
          bw_mut.at = k;
          bw_mut.how = how;
          bw_mut.junk = junk;
          blob m = st_build(id, 2);
          bw_mut.at = 0;
          if (!bw_mut.was)
          {
            static const char *hn[] = {"all ones", "zero", "the largest but one", "one more", "the upper half", "one less"};
            static const char *jn[] = {"", ", 400 arbitrary bits behind it", ", 400 ones behind it", ", 400 zeros behind it"};
            snprintf(w, sizeof w, "%s%s", hn[how], jn[junk]);
            try_it(m, w);
          }
          free(m.d);
        }
      dec_close(&D);
      dec_free(&D);
    }
  }
  for (int slot = 0; slot < S_N; slot++)
    for (const int *t = s_types[slot]; *t >= 0; t++)
      for (int b0 = 0; b0 < 256; b0 += 16)
      {
        int c = slot == S_EARCON && (*t & 2) ? 1 : (*t + slot) % 3;
        if (slot == S_FRAME && !dconf_ok(*t, c))
          c = 0;
        if (!vf_case("%s %d, decoder %s: contents beginning with %02x to %02x", s_name[slot], *t, dconfs[c].name, b0, b0 + 15))
          continue;
        ready(&dconfs[c]);
        for (int k = b0; k < b0 + 16; k++)
          for (int tail = 0; tail < NTAIL; tail++)
          {
            if (slot == S_MANY && *t == EXT_HOA && (k % 8 || tail > 1)) /* half a second each: the renderer is set up */
              continue;
            if (!vf_thorough && (k % 16 != (tail * 5 + b0 / 16) % 16 || tail > 5))
              continue;
            uint8_t g[400];
            int n = tail & 1 ? 60 : 396;
            content(g, n, k, tail);
            blob m = garbage(slot, *t, g, n);
            snprintf(w, sizeof w, "beginning %02x, followed by pattern %d", k, tail);
            try_it(m, w);
            free(m.d);
          }
        dec_close(&D);
        dec_free(&D);
      }
  return vf_finish();
}
