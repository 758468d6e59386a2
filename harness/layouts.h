#ifndef VF_LAYOUTS_H
#define VF_LAYOUTS_H
typedef struct
{
  int az, el, lfe;
} spk;
/* layouts as the standard for coding-independent code points lists them */
#define L {30, 0, 0}
#define R {-30, 0, 0}
#define C {0, 0, 0}
#define LFE {0, 0, 1}
#define LS {110, 0, 0}
#define RS {-110, 0, 0}
static const spk lay[21][16] = {
    {{0}},
    {C},
    {L, R},
    {L, R, C},
    {L, R, C, {180, 0, 0}},
    {L, R, C, LS, RS},
    {L, R, C, LFE, LS, RS},
    {L, R, C, LFE, LS, RS, {60, 0, 0}, {-60, 0, 0}},
    {{0}},
    {L, R, {180, 0, 0}},
    {L, R, LS, RS},
    {L, R, C, LFE, LS, RS, {180, 0, 0}},
    {L, R, C, LFE, LS, RS, {135, 0, 0}, {-135, 0, 0}},
    {{0}}, /* 22.2: beyond the profile as a source */
    {L, R, C, LFE, LS, RS, {30, 35, 0}, {-30, 35, 0}},
    {L, R, C, {45, -15, 1}, {135, 0, 0}, {-135, 0, 0}, {-45, -15, 1}, {90, 0, 0}, {-90, 0, 0}, {45, 35, 0}, {-45, 35, 0}, {180, 35, 0}},
    {L, R, C, LFE, LS, RS, {30, 35, 0}, {-30, 35, 0}, {110, 35, 0}, {-110, 35, 0}},
    {L, R, C, LFE, LS, RS, {30, 35, 0}, {-30, 35, 0}, {0, 35, 0}, {110, 35, 0}, {-110, 35, 0}, {0, 90, 0}},
    {L, R, C, LFE, LS, RS, {150, 0, 0}, {-150, 0, 0}, {30, 35, 0}, {-30, 35, 0}, {0, 35, 0}, {110, 35, 0}, {-110, 35, 0}, {0, 90, 0}},
    {L, R, C, LFE, {135, 0, 0}, {-135, 0, 0}, {90, 0, 0}, {-90, 0, 0}, {30, 35, 0}, {-30, 35, 0}, {135, 35, 0}, {-135, 35, 0}},
    {L, R, C, LFE, {135, 0, 0}, {-135, 0, 0}, {90, 0, 0}, {-90, 0, 0}, {45, 35, 0}, {-45, 35, 0}, {135, 35, 0}, {-135, 35, 0}, {60, 0, 0}, {-60, 0, 0}},
};
static int find(int cicp, int az, int el, int lfe)
{
  int n = sx_cicp_nch(cicp);
  for (int i = 0; i < n; i++)
    if (lay[cicp][i].lfe == lfe && lay[cicp][i].el == el && (lay[cicp][i].az == az || (el == 90 && !lfe) || (abs(az) == 180 && abs(lay[cicp][i].az) == 180)))
      return i;
  return -1;
}
#undef L
#undef R
#undef C
#undef LFE
#undef LS
#undef RS
#endif
