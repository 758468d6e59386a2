/* Prints harness/gold.h: the normative constants (ISO/IEC 23003-3/23008-3) the stream synthesiser and the
 * reference decoder use.  Run once, on the tree whose test vectors decode correctly; the result is committed, so
 * the checks do not take these constants from the tree under test. */
#include <stdio.h>
#include <string.h>
#include "impeghd_type_def.h"
#include "ia_core_coder_bitbuffer.h"
#include "ia_core_coder_cnst.h"
#include "ia_core_coder_constants.h"
#include "ia_core_coder_defines.h"
#include "ia_core_coder_interface.h"
#include "ia_core_coder_info.h"
#include "ia_core_coder_rom.h"
extern const ia_mpegh_dec_block_tables_struct ia_core_coder_mpeghd_block_tables;
extern const ia_mpegh_dec_huffman_tables_struct ia_core_coder_mpeghd_huffmann_tables;
extern VOID ia_core_coder_huffman_decode(WORD32, WORD16 *, WORD16 *, const UWORD16 *, const UWORD32 *);
int main(void)
{
  int i, j;
  printf("/* generated once by tools/gen_gold.c */\n#ifndef GOLD_H\n#define GOLD_H\n#include <stdint.h>\n");
  printf("static const uint32_t gold_hash[742]={");
  for (i = 0; i < 742; i++) printf("%u,%s", ia_core_coder_ari_hash_m[i], i % 12 == 11 ? "\n" : "");
  printf("};\nstatic const uint8_t gold_hash1[742]={");
  for (i = 0; i < 742; i++) printf("%u,%s", ia_core_coder_ari_hash_m_1[i], i % 24 == 23 ? "\n" : "");
  printf("};\nstatic const uint8_t gold_lookup[742]={");
  for (i = 0; i < 742; i++) printf("%u,%s", ia_core_coder_ari_lookup_m[i], i % 24 == 23 ? "\n" : "");
  printf("};\nstatic const uint16_t gold_cf_m[64][17]={");
  for (i = 0; i < 64; i++) { printf("{"); for (j = 0; j < 17; j++) printf("%u,", ia_core_coder_ari_cf_m[i][j]); printf("},\n"); }
  printf("};\nstatic const uint16_t gold_cf_r[3][4]={");
  for (i = 0; i < 3; i++) { printf("{"); for (j = 0; j < 4; j++) printf("%u,", ia_core_coder_ari_cf_r[i][j]); printf("},"); }
  printf("};\nstatic const struct{uint32_t c;int n;} gold_scf[121]={");
  {
    static unsigned code[128], len[128];
    for (unsigned v = 0; v < (1u << 19); v++)
    {
      WORD16 idx, l;
      ia_core_coder_huffman_decode((WORD32)(v << 13), &idx, &l, ia_core_coder_mpeghd_huffmann_tables.huffman_code_book_scl,
                                   ia_core_coder_mpeghd_huffmann_tables.huffman_code_book_scl_index);
      if (idx >= 0 && idx < 128 && !len[idx]) { len[idx] = l; code[idx] = v >> (19 - l); }
    }
    for (i = 0; i < 121; i++) printf("{%u,%u},%s", code[i], len[i], i % 10 == 9 ? "\n" : "");
  }
  printf("};\nstatic const int gold_fs[16]={");
  for (i = 0; i < 13; i++) printf("%d,", (int)ia_core_coder_samp_rate_info[i].samp_rate);
  printf("};\nstatic const int gold_nsfb_l[16]={");
  for (i = 0; i < 13; i++) printf("%d,", (int)ia_core_coder_samp_rate_info[i].num_sfb_1024);
  printf("};\nstatic const int gold_nsfb_s[16]={");
  for (i = 0; i < 13; i++) printf("%d,", (int)ia_core_coder_samp_rate_info[i].num_sfb_128);
  printf("};\nstatic const int16_t gold_sfb_l[13][52]={");
  for (i = 0; i < 13; i++) { printf("{"); for (j = 0; j < ia_core_coder_samp_rate_info[i].num_sfb_1024; j++) printf("%d,", ia_core_coder_samp_rate_info[i].ptr_sfb_1024[j]); printf("},\n"); }
  printf("};\nstatic const int16_t gold_sfb_s[13][16]={");
  for (i = 0; i < 13; i++) { printf("{"); for (j = 0; j < ia_core_coder_samp_rate_info[i].num_sfb_128; j++) printf("%d,", ia_core_coder_samp_rate_info[i].ptr_sfb_128[j]); printf("},\n"); }
  printf("};\nstatic const int gold_tnsmax[16][2]={");
  for (i = 0; i < 16; i++) printf("{%d,%d},", (int)ia_core_coder_mpeghd_block_tables.tns_max_bands_tbl_usac[i][0], (int)ia_core_coder_mpeghd_block_tables.tns_max_bands_tbl_usac[i][1]);
  printf("};\n/* [kind][prev shape][shape]: kind 0 long/short, 1 start, 2 stop, 3 stop-start */\nstatic const double gold_mdst_cur[4][2][2][7]={");
  {
    const FLOAT32 *const (*t[4])[2] = {ia_core_coder_mdst_fcoeff_longshort_curr, ia_core_coder_mdst_fcoeff_start_curr, ia_core_coder_mdst_fcoeff_stop_cur, ia_core_coder_mdst_fcoeff_stopstart_cur};
    for (int k = 0; k < 4; k++) { printf("{"); for (i = 0; i < 2; i++) { printf("{"); for (j = 0; j < 2; j++) { printf("{"); for (int m = 0; m < 7; m++) printf("%.9g,", t[k][i][j][m]); printf("},"); } printf("},"); } printf("},\n"); }
  }
  printf("};\nstatic const double gold_mdst_prev[2][2][7]={");
  for (int k = 0; k < 2; k++) { printf("{"); for (i = 0; i < 2; i++) { const FLOAT32 *q = k ? ia_core_coder_mdst_fcoeff_stop_stopstart_left_prev[i] : ia_core_coder_mdst_fcoeff_l_s_start_left_prev[i]; printf("{"); for (int m = 0; m < 7; m++) printf("%.9g,", q[m]); printf("},"); } printf("},\n"); }
  printf("};\nstatic const double gold_ltpf1[2][8]={");
  for (i = 0; i < 2; i++) { printf("{"); for (j = 0; j < 8; j++) printf("%.9g,", ia_ltpf_filter_coef1[i][j]); printf("},"); }
  printf("};\nstatic const double gold_ltpf2[4][7]={");
  for (i = 0; i < 4; i++) { printf("{"); for (j = 0; j < 7; j++) printf("%.9g,", ia_ltpf_filter_coef2[i][j]); printf("},"); }
  printf("};\nstatic const uint16_t gold_fdp_exp[182]={");
  for (i = 0; i < 182; i++) printf("%u,", ia_core_coder_fdp_exp[i]);
  printf("};\nstatic const uint16_t gold_fdp_scf[63]={");
  for (i = 0; i < 63; i++) printf("%u,", ia_core_coder_fdp_scf[i]);
  printf("};\nstatic const int gold_fdp_s1[129]={");
  for (i = 0; i < 129; i++) printf("%d,", (int)ia_core_coder_fdp_s1[i]);
  printf("};\nstatic const int gold_fdp_s2[129]={");
  for (i = 0; i < 129; i++) printf("%d,", (int)ia_core_coder_fdp_s2[i]);
  printf("};\nstatic const double gold_pow143[8]={");
  for (i = 0; i < 8; i++) printf("%.9g,", ia_core_coder_pow_14_3[i]);
  printf("};\n#endif\n");
  return 0;
}
