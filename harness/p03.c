/* P03: instances.  Every interleaving of the API calls of two decoders (and, deeper, three), over pairs of streams and
 * settings; each must deliver what it delivers alone, and no call may change static memory of the library. */
#include "vf.h"
#include "streams.h"
extern char __data_start, _end;

typedef struct
{
  blob st;
  const dconf *c;
  dec_t ref;
} inst;
static inst I[3];
static dec_t *D[3];
static char *snap;
static int static_writes;

static void step(dec_t *d, inst *in, int k, int nexec)
{
  if (k == 0)
  {
    dec_defaults(d);
    dconf_apply(d, in->c);
    d->al.fill = 2;
    d->st = in->st;
    dec_create(d);
  }
  else if (k == 1)
    dec_start(d);
  else if (k < 2 + nexec)
    dec_run(d, 1);
  else
    dec_close(d);
}
static void monitored(dec_t *d, inst *in, int k, int nexec)
{
  long n = &_end - &__data_start;
  al_cur = &d->al;
  memcpy(snap, &__data_start, n);
  step(d, in, k, nexec);
  if (memcmp(snap, &__data_start, n))
    static_writes++;
}
static void judge(int i, const char *order)
{
  dec_t *d = D[i], *r = &I[i].ref;
  if (d->err_create != r->err_create || d->err_init != r->err_init || d->err_exec != r->err_exec || d->fatal != r->fatal)
    vf_fail("codes", "instance %d in order %s: codes %x/%x/%x, alone %x/%x/%x", i, order, d->err_create, d->err_init,
            d->err_exec, r->err_create, r->err_init, r->err_exec);
  if (d->npcm != r->npcm || memcmp(d->pcm, r->pcm, r->npcm))
    vf_fail("pcm", "instance %d in order %s: output differs from its output alone", i, order);
  if (d->out.i_num_chan != r->out.i_num_chan || d->out.i_samp_freq != r->out.i_samp_freq ||
      d->out.num_speakers != r->out.num_speakers || d->out.cicp_index != r->out.cicp_index)
    vf_fail("info", "instance %d in order %s: stream information differs", i, order);
  if (d->al.bad_free || d->al.double_free || al_live(&d->al))
    vf_fail("memory", "instance %d in order %s: releases wrong", i, order);
  if (al_check_guards(&d->al) || d->al.guard_bad)
    vf_fail("guard", "instance %d in order %s: writes outside its memory", i, order);
}
/* the ref of one instance: alone, twice in a row */
static void make_ref(int i, int nexec, int id, int conf)
{
  I[i].st = st_build(id, nexec);
  I[i].c = &dconfs[conf];
  for (int r = 0; r < 2; r++)
  {
    if (r)
      dec_free(&I[i].ref);
    for (int k = 0; k < nexec + 3; k++)
      step(&I[i].ref, &I[i], k, nexec);
  }
}
/* all interleavings of n instances with m steps each, depth first; every complete order is executed afresh */
static int order[64];
static long norders;
static void run_order(int n, int m, int nexec)
{
  int pos[3] = {0, 0, 0};
  char os[64];
  for (int i = 0; i < n; i++)
    memset(D[i], 0, sizeof(dec_t));
  for (int t = 0; t < n * m; t++)
  {
    int i = order[t];
    os[t] = (char)('A' + i);
    monitored(D[i], &I[i], pos[i]++, nexec);
    vf_trans++;
  }
  os[n * m] = 0;
  for (int i = 0; i < n; i++)
  {
    judge(i, os);
    dec_free(D[i]);
  }
  if (static_writes)
  {
    vf_fail("static-write", "%d calls changed static memory of the library in order %s", static_writes, os);
    static_writes = 0;
  }
  norders++;
}
static void dfs(int t, int n, int m, int nexec, int *left)
{
  if (t == n * m)
  {
    run_order(n, m, nexec);
    return;
  }
  for (int i = 0; i < n; i++)
    if (left[i])
    {
      left[i]--;
      order[t] = i;
      dfs(t + 1, n, m, nexec, left);
      left[i]++;
    }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  snap = (char *)malloc(&_end - &__data_start);
  for (int i = 0; i < 3; i++)
    D[i] = (dec_t *)calloc(1, sizeof(dec_t));
  static const int pairs[][4] = {
      {ST_MONO, 0, ST_STEREO, 1}, {ST_WINDOWS, 0, ST_LTPF, 3}, {ST_51, 1, ST_71, 0},  {ST_441, 0, ST_STEREO, 4},
      {ST_51, 2, ST_51, 1},       {ST_LTPF, 0, ST_LTPF, 0},   {ST_STEREO, 0, ST_STEREO, 0}, {ST_714, 1, ST_WINDOWS, 5},
      {ST_STEREO, 5, ST_441, 7},  {ST_714, 0, ST_51, 6},
      {ST_32K, 7, ST_24K, 7},    {ST_22K, 5, ST_16K, 7},     {ST_MCT, 0, ST_MCT, 2},        {ST_24K, 7, ST_24K, 2},
      {ST_OBJ, 1, ST_OBJ, 6},     {ST_CHOBJ, 0, ST_OBJ, 0},   {ST_CHOBJ, 1, ST_51, 1},
      {ST_JK + JK_LPD, 0, ST_JK + JK_LPDST, 1}, {ST_JK + JK_LPDFB, 0, ST_JK + JK_IGFENF, 0}, {ST_JK + JK_LPDFB, 0, ST_JK + JK_LPDFB, 3},
      {ST_JK + JK_IGFCPE, 0, ST_JK + JK_IGFENF, 2}, {ST_JK + JK_LPDCPE, 7, ST_JK + JK_IGF, 0}, {ST_JK + JK_HOA, 2, ST_JK + JK_HOA2, 2},
      {ST_JK + JK_HOA, 0, ST_OBJ, 0}, {ST_DRC, 8, ST_DRC, 9},
  };
  int np = sizeof(pairs) / sizeof(pairs[0]), nexec = vf_thorough ? 3 : 2; /* recorded streams: the linear prediction domain starts at the second frame */
  /* one case per first step sequences: split by the first four choices so that shards share the work */
  for (int p = 0; p < np; p++)
    for (int pre = 0; pre < 16; pre++)
    {
      int m = nexec + 3, left[3] = {m, m, 0}, cnt = 0;
      for (int b = 0; b < 4; b++)
        cnt += (pre >> b) & 1;
      if (!vf_case("pair %s/%s with %s/%s, orders starting %d%d%d%d", st_name[pairs[p][0]], dconfs[pairs[p][1]].name,
                   st_name[pairs[p][2]], dconfs[pairs[p][3]].name, pre & 1, (pre >> 1) & 1, (pre >> 2) & 1, pre >> 3))
        continue;
      make_ref(0, nexec, pairs[p][0], pairs[p][1]);
      make_ref(1, nexec, pairs[p][2], pairs[p][3]);
      if (I[0].ref.npcm == 0 || I[1].ref.npcm == 0)
        vf_fail("no-pcm", "nothing decoded");
      for (int b = 0; b < 4; b++)
        order[b] = (pre >> b) & 1, left[order[b]]--;
      norders = 0;
      dfs(4, 2, m, nexec, left);
      vf_nontriv += norders;
      vf_outcome(vf_hash(I[0].ref.pcm, I[0].ref.npcm, 0) ^ vf_hash(I[1].ref.pcm, I[1].ref.npcm, 7));
      for (int i = 0; i < 2; i++)
      {
        dec_free(&I[i].ref);
        memset(&I[i].ref, 0, sizeof(dec_t));
        free(I[i].st.d);
      }
    }
  if (vf_thorough)
  { /* three instances, create+init+1 frame+delete each: 34650 orders split over the first three choices */
    static const int tri[][6] = {{ST_STEREO, 0, ST_51, 1, ST_LTPF, 4}, {ST_WINDOWS, 3, ST_441, 0, ST_714, 2}};
    for (int p = 0; p < 2; p++)
      for (int pre = 0; pre < 243; pre++)
      {
        int m = 4, left[3] = {4, 4, 4}, ok = 1, x = pre;
        for (int b = 0; b < 5; b++, x /= 3)
        {
          order[b] = x % 3;
          if (left[order[b]]-- <= 0)
            ok = 0;
        }
        if (!ok)
          continue;
        if (!vf_case("three instances %d, orders starting %d", p, pre))
          continue;
        for (int i = 0; i < 3; i++)
          make_ref(i, 1, tri[p][2 * i], tri[p][2 * i + 1]);
        norders = 0;
        dfs(5, 3, m, 1, left);
        vf_nontriv += norders;
        for (int i = 0; i < 3; i++)
        {
          dec_free(&I[i].ref);
          memset(&I[i].ref, 0, sizeof(dec_t));
          free(I[i].st.d);
        }
      }
  }
  return vf_finish();
}
