/* P02: creation parameters.  Every value of each parameter in a range around its legal set, and every combination of
 * value classes of all five parameters, each compared with a decoder created with the defaults in place. */
#include "vf.h"
#include "streams.h"

typedef struct
{
  unsigned wd;
  int effect, loud_set, loud, cicp, preset;
} par;
static const par DEF = {16, 0, 0, 0, 0, -1};
static int nch_of(int cicp) { return sx_cicp_nch(cicp); }
/* the codes that may be reported (bit per code 0x800+i), and the parameters that are in force */
static int judge(const par *p, par *eff)
{
  int m = 0;
  *eff = *p;
  if (p->wd != 16 && p->wd != 24 && p->wd != 32)
    m |= 1, eff->wd = DEF.wd;
  if (p->loud_set == 1 && (p->loud < 0 || p->loud > 255))
    m |= 2, eff->loud_set = 0, eff->loud = 0;
  if (p->effect < 0 || p->effect > 8)
    m |= 4, eff->effect = DEF.effect;
  if (p->cicp < 0 || p->cicp > 19)
    m |= 8, eff->cicp = DEF.cicp;
  if (p->preset < -1 || p->preset > 31)
    m |= 16, eff->preset = DEF.preset;
  return m;
}
static void setup(dec_t *d, const par *p)
{
  dec_defaults(d);
  d->in.ui_pcm_wd_sz = p->wd;
  d->in.ui_effect = p->effect;
  d->in.ui_target_loudness[0] = p->loud_set;
  d->in.ui_target_loudness[1] = p->loud;
  d->in.ui_cicp_layout_idx = p->cicp;
  d->in.i_preset_id = (WORD8)p->preset;
}
static blob st;
static dec_t *a, *b;
static void check(const par *p)
{
  par eff;
  int m = judge(p, &eff);
  setup(a, p);
  setup(b, &eff);
  int ea = dec_all(a, st, 0), eb = dec_all(b, st, 0);
  int ca = a->err_create, cb = b->err_create;
  vf_trans += a->n_exec + b->n_exec + 2;
  vf_outcome((uint64_t)(uint32_t)ca * 7 + a->out.i_num_chan * 64 + a->out.i_pcm_wd_sz);
  if (m)
    vf_nontriv++;
  if (!m && ca)
    vf_fail("valid-rejected", "create returned %x for valid parameters", ca);
  if (m && (ca < 0x800 || ca > 0x804 || !(m & (1 << (ca - 0x800)))))
    vf_fail("wrong-code", "create returned %x, invalid parameters mask %x", ca, m);
  if (cb)
    vf_fail("valid-rejected", "create returned %x for the defaults", cb);
  if (ea != eb)
    vf_fail("result", "decoding ended with %x, with the defaults %x", ea, eb);
  if (a->out.i_pcm_wd_sz != (int)eff.wd)
    vf_fail("word-size", "reports word size %d, expected %u", a->out.i_pcm_wd_sz, eff.wd);
  if (a->out.i_drc_effect != eff.effect)
    vf_fail("effect", "reports effect %d, expected %d", a->out.i_drc_effect, eff.effect);
  if (a->out.i_target_loudness != (eff.loud_set == 1 ? -(eff.loud >> 2) : -24))
    vf_fail("loudness", "reports loudness %d for raw %d", a->out.i_target_loudness, eff.loud_set ? eff.loud : -1);
  if (a->out.i_loud_norm != (eff.loud_set == 1))
    vf_fail("loud-norm", "reports normalisation %d", a->out.i_loud_norm);
  if (a->out.i_num_chan != b->out.i_num_chan || (eff.cicp && a->out.i_num_chan != nch_of(eff.cicp)) ||
      (!eff.cicp && a->out.i_num_chan != 2))
    vf_fail("channels", "%d channels, with the defaults %d, layout %d", a->out.i_num_chan, b->out.i_num_chan, eff.cicp);
  if (a->npcm != b->npcm || memcmp(a->pcm, b->pcm, a->npcm))
    vf_fail("pcm", "output differs from that of the decoder created with the defaults");
  if (!ea && a->npcm == 0)
    vf_fail("no-pcm", "nothing decoded");
  dec_close(a);
  dec_close(b);
  dec_free(a);
  dec_free(b);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  a = (dec_t *)calloc(1, sizeof(*a));
  b = (dec_t *)calloc(1, sizeof(*b));
  st = st_build(ST_STEREO, 2);
  int hi = vf_thorough ? 300 : 70;
  for (int v = 0; v <= hi; v++)
    if (vf_case("word size %d", v))
    {
      par p = DEF;
      p.wd = v;
      check(&p);
    }
  for (int v = -40; v <= (vf_thorough ? 300 : 40); v++)
    if (vf_case("effect %d", v))
    {
      par p = DEF;
      p.effect = v;
      check(&p);
    }
  for (int v = -130; v <= 300; v += vf_thorough ? 1 : (v > 2 && v < 250) ? 7 : (v < -10 ? 9 : 1))
    if (vf_case("target loudness %d", v))
    {
      par p = DEF;
      p.loud_set = 1;
      p.loud = v;
      check(&p);
    }
  for (int v = -30; v <= (vf_thorough ? 300 : 40); v++)
    if (v != 8 && v != 0 && vf_case("layout %d", v))
    {
      par p = DEF;
      p.cicp = v;
      check(&p);
    }
  for (int v = -128; v < 128; v += vf_thorough ? 1 : (v < -5 || v > 40) ? 8 : 1)
    if (vf_case("preset %d", v))
    {
      par p = DEF;
      p.preset = v;
      check(&p);
    }
  int big[] = {INT32_MAX, INT32_MIN, 1 << 16, -65536, 256 + 16, 65536 + 2};
  for (int k = 0; k < 6; k++)
    for (int w = 0; w < 4; w++)
      if (vf_case("extreme value %d parameter %d", big[k], w))
      {
        par p = DEF;
        if (w == 0)
          p.wd = (unsigned)big[k];
        if (w == 1)
          p.effect = big[k];
        if (w == 2)
          p.cicp = big[k];
        if (w == 3)
          p.loud_set = 1, p.loud = big[k];
        check(&p);
      }
  static const unsigned wds[] = {16, 24, 8, 33};
  static const int effs[] = {0, 5, -1, 9}, louds[] = {-1000, 64, -5, 256}, cicps[] = {0, 6, -3, 20}, pres[] = {-1, 2, -2, 32};
  for (int c = 0; c < 1024; c++)
  {
    int k[5] = {c & 3, (c >> 2) & 3, (c >> 4) & 3, (c >> 6) & 3, (c >> 8) & 3};
    if (!vf_thorough && ((k[0] == 3) + (k[1] == 3) + (k[2] == 3) + (k[3] == 3) + (k[4] == 3) > 1))
      continue;
    if (vf_case("combination wd %u effect %d loudness %d layout %d preset %d", wds[k[0]], effs[k[1]],
                louds[k[2]], cicps[k[3]], pres[k[4]]))
    {
      par p = {wds[k[0]], effs[k[1]], louds[k[2]] != -1000, louds[k[2]] == -1000 ? 0 : louds[k[2]], cicps[k[3]], pres[k[4]]};
      check(&p);
    }
  }
  return vf_finish();
}
