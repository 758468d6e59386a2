/* Drives the decoder through its public API, the way the test bench does, with every environment
 * answer (allocation, memory contents, bytes delivered per call) decided by the harness. */
#ifndef VF_DEC_H
#define VF_DEC_H
#include "impeghd_type_def.h"
#include "impeghd_memory_standards.h"
#include "impeghd_api.h"
#include "impeghd_error_codes.h"

typedef struct
{
  uint8_t *d;
  long n;
} blob;

static blob load_file(const char *path)
{
  blob b = {0, 0};
  FILE *f = fopen(path, "rb");
  if (!f)
  {
    fprintf(stderr, "cannot open %s\n", path);
    exit(4);
  }
  fseek(f, 0, SEEK_END);
  b.n = ftell(f);
  rewind(f);
  b.d = (uint8_t *)malloc(b.n + 16);
  b.n = (long)fread(b.d, 1, b.n, f);
  fclose(f);
  return b;
}
static const char *repo_dir(void)
{
  const char *r = getenv("VF_REPO");
  return r ? r : "/repo";
}
static blob load_sample(const char *name)
{
  char p[512];
  snprintf(p, sizeof(p), "%s/smoke_test_suite/inp/%s", repo_dir(), name);
  return load_file(p);
}

/* ---- allocator under harness control ---- */
#define AL_MAX 64
#define AL_GUARD 64
typedef struct
{
  void *p; /* pointer handed out */
  uint8_t *raw, *raw0;
  size_t n;
  int live;
} al_blk;
typedef struct
{
  al_blk b[AL_MAX];
  int n, calls, fail_at, bad_free, double_free, fill, guard_bad;
} al_state;
static al_state *al_cur;
static int al_offset; /* shift of every block handed out */

static void al_pattern(uint8_t *p, size_t n, int fill)
{
  if (fill == 0)
    memset(p, 0, n);
  else if (fill == 1)
    memset(p, 0xFF, n);
  else if (fill == 2)
    memset(p, 0xA5, n);
  else if (fill == 3)
  { /* large finite floats */
    float v = 1.0e6f;
    size_t i;
    for (i = 0; i + 4 <= n; i += 4)
      memcpy(p + i, &v, 4);
    for (; i < n; i++)
      p[i] = 0x49;
  }
  else
  {
    uint32_t s = 12345u + fill;
    for (size_t i = 0; i < n; i++)
    {
      s = s * 1664525u + 1013904223u;
      p[i] = (uint8_t)(s >> 24);
    }
  }
}
static void *al_malloc(UWORD32 size, UWORD32 align)
{
  al_state *a = al_cur;
  if (a->calls++ == a->fail_at)
    return 0;
  if (a->n >= AL_MAX)
    return 0;
  size_t n = (size_t)size + align;
  uint8_t *raw = (uint8_t *)malloc(n + 2 * AL_GUARD + 64);
  if (!raw)
  {
    fprintf(stderr, "harness out of memory\n");
    _exit(5);
  }
  uint8_t *raw0 = raw;
  raw += al_offset;
  memset(raw, 0x5C, AL_GUARD);
  memset(raw + AL_GUARD + n, 0x5C, AL_GUARD);
  if (a->fill >= 0)
    al_pattern(raw + AL_GUARD, n, a->fill);
  al_blk *b = &a->b[a->n++];
  b->raw0 = raw0;
  b->raw = raw;
  b->p = raw + AL_GUARD;
  b->n = n;
  b->live = 1;
  return b->p;
}
static int al_check_guards(al_state *a)
{
  int bad = 0;
  for (int i = 0; i < a->n; i++)
    if (a->b[i].live)
      for (int k = 0; k < AL_GUARD; k++)
        if (a->b[i].raw[k] != 0x5C || a->b[i].raw[AL_GUARD + a->b[i].n + k] != 0x5C)
          bad++;
  return bad;
}
static void al_free(void *p)
{
  al_state *a = al_cur;
  for (int i = a->n - 1; i >= 0; i--)
    if (a->b[i].p == p)
    {
      if (!a->b[i].live)
      {
        a->double_free++;
        return;
      }
      for (int k = 0; k < AL_GUARD; k++)
        if (a->b[i].raw[k] != 0x5C || a->b[i].raw[AL_GUARD + a->b[i].n + k] != 0x5C)
          a->guard_bad++;
      a->b[i].live = 0;
      free(a->b[i].raw0);
      a->b[i].raw = 0;
      return;
    }
  a->bad_free++;
}
static int al_live(const al_state *a)
{
  int l = 0;
  for (int i = 0; i < a->n; i++)
    l += a->b[i].live;
  return l;
}
static void al_drop(al_state *a)
{
  for (int i = 0; i < a->n; i++)
    if (a->b[i].live)
    {
      free(a->b[i].raw0);
      a->b[i].live = 0;
    }
}

/* ---- one decoder ---- */
typedef struct
{
  ia_input_config in;
  ia_output_config out;
  al_state al;
  void *obj;
  blob st;       /* the stream */
  long pos;      /* bytes of the stream already delivered into the input buffer */
  int have;      /* bytes in the input buffer that the decoder has not consumed yet */
  int started, eof;
  uint8_t *pcm;  /* collected output */
  long npcm, cap;
  int *frame_bytes; /* output bytes per execute call */
  int nframes, capf;
  int err_create, err_init, err_exec; /* last codes */
  int fatal;
  int n_init, n_exec;
  int insuf; /* calls in a row that asked for more data */
  int bad_consumed, inp_changed;
  int track_inp; /* compare the input buffer before and after each call */
  uint8_t *inp_copy;
  int (*deliver)(void *self, int space, int call); /* how many bytes to offer this call; <0: all */
} dec_t;

static void dec_defaults(dec_t *d)
{
  memset(d, 0, sizeof(*d));
  d->al.fail_at = -1;
  d->al.fill = 0;
  d->in.ui_pcm_wd_sz = 16;
  d->in.ui_mhas_flag = 1;
  d->in.i_preset_id = -1;
  d->out.malloc_mpegh = &al_malloc;
  d->out.free_mpegh = &al_free;
}
static int dec_create(dec_t *d)
{
  al_cur = &d->al;
  d->err_create = (int)ia_mpegh_dec_create(&d->in, &d->out);
  d->obj = d->out.pv_ia_process_api_obj;
  return d->err_create;
}
static int is_fatal(int e) { return (e & 0x80000000) != 0; }
static int dec_refill(dec_t *d)
{
  int size = (int)d->out.ui_inp_buf_size, space = size - d->have;
  uint8_t *ib = (uint8_t *)d->out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
  long left = d->st.n - d->pos;
  int n = space;
  if (d->deliver)
    n = d->deliver(d, space, d->n_init + d->n_exec);
  if (n <= 0 && d->insuf)
    n = 1; /* the call before asked for more */
  if (n > space)
    n = space;
  if (n > left)
    n = (int)left;
  if (n < 0)
    n = 0;
  memcpy(ib + d->have, d->st.d + d->pos, n);
  d->pos += n;
  d->have += n;
  return n;
}
static void dec_consume(dec_t *d, int c)
{
  uint8_t *ib = (uint8_t *)d->out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
  if (c < 0)
    c = 0;
  if (c > d->have)
    c = d->have;
  memmove(ib, ib + c, d->have - c);
  d->have -= c;
}
#define IS_INSUF(e) ((e) == 0x1000 || (e) == 0x1800)
static void dec_before(dec_t *d)
{
  if (d->track_inp)
  {
    int n = (int)d->out.ui_inp_buf_size;
    if (!d->inp_copy)
      d->inp_copy = (uint8_t *)malloc(n);
    memcpy(d->inp_copy, d->out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr, n);
  }
}
static void dec_after(dec_t *d, int e)
{
  int c = d->out.i_bytes_consumed;
  if (c < 0 || c > d->have)
    d->bad_consumed++;
  if (d->track_inp && memcmp(d->inp_copy, d->out.mem_info_table[IA_MEMTYPE_INPUT].mem_ptr, d->out.ui_inp_buf_size))
    d->inp_changed++;
  if (IS_INSUF(e) && d->pos < d->st.n && d->have < (int)d->out.ui_inp_buf_size)
    d->insuf++;
  else
    d->insuf = 0;
}
/* One init call: returns the error code.  When it asks for more (d->insuf) nothing may be consumed. */
static void (*dec_watch)(dec_t *d, int executing); /* called after every call that succeeded */
static int dec_init_call(dec_t *d)
{
  al_cur = &d->al;
  dec_refill(d);
  d->in.num_inp_bytes = d->have;
  d->out.i_bytes_consumed = 0;
  dec_before(d);
  d->err_init = (int)ia_mpegh_dec_init(d->obj, &d->in, &d->out);
  dec_after(d, d->err_init);
  d->n_init++;
  if (dec_watch && d->out.ui_init_done)
    dec_watch(d, 0);
  return d->err_init;
}
static void dec_append(dec_t *d)
{
  int n = d->out.num_out_bytes;
  if (n < 0)
    n = 0;
  if (d->npcm > 1l << 29)
  {
    d->eof = 1; /* runaway */
    return;
  }
  if (d->npcm + n > d->cap)
  {
    d->cap = (d->npcm + n) * 2 + 65536;
    d->pcm = (uint8_t *)realloc(d->pcm, d->cap);
  }
  memcpy(d->pcm + d->npcm, d->out.mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr, n);
  d->npcm += n;
  if (d->nframes >= d->capf)
  {
    d->capf = d->capf * 2 + 64;
    d->frame_bytes = (int *)realloc(d->frame_bytes, d->capf * sizeof(int));
  }
  d->frame_bytes[d->nframes++] = n;
}
/* One execute call on what is in the buffer; appends its output. */
static int dec_exec_call(dec_t *d)
{
  al_cur = &d->al;
  dec_refill(d);
  d->in.num_inp_bytes = d->have;
  if (d->have <= 0)
  {
    d->eof = 1;
    return 0;
  }
  d->out.i_bytes_consumed = 0;
  d->out.num_out_bytes = 0;
  dec_before(d);
  d->err_exec = (int)ia_mpegh_dec_execute(d->obj, &d->in, &d->out);
  dec_after(d, d->err_exec);
  d->n_exec++;
  if (dec_watch && !d->err_exec)
    dec_watch(d, 1);
  if (getenv("VF_TRACE"))
    fprintf(stderr, "execute %d: %x, %d of %d consumed, %d out\n", d->n_exec, d->err_exec, d->out.i_bytes_consumed, d->have, d->out.num_out_bytes);
  return d->err_exec;
}
/* Init until done; 0 if it got there. */
static int dec_start(dec_t *d)
{
  int guard = 0;
  while (!d->out.ui_init_done)
  {
    int e = dec_init_call(d);
    (void)e;
    if (d->have == 0 && d->out.ui_init_done == 0)
      return 1;
    if (!d->insuf)
      dec_consume(d, d->out.i_bytes_consumed);
    if (d->out.ui_init_done)
      break;
    if (d->have == 0 && d->pos >= d->st.n)
      return 1;
    if (++guard > 100000)
      return 2;
  }
  d->started = 1;
  return 0;
}
/* Decode at most max_frames execute calls (<=0: to the end). */
static int dec_run(dec_t *d, int max_calls)
{
  int calls = 0, stuck = 0;
  while (!d->eof && (max_calls <= 0 || calls < max_calls))
  {
    int e = dec_exec_call(d);
    if (d->eof)
      break;
    calls++;
    if (d->insuf)
      continue;
    dec_append(d);
    dec_consume(d, d->out.i_bytes_consumed);
    if (is_fatal(e))
      d->fatal++;
    if (d->out.i_bytes_consumed <= 0 && (d->pos >= d->st.n || ++stuck > 64))
      break; /* it will not get any further */
    if (d->out.i_bytes_consumed > 0)
      stuck = 0;
  }
  return calls;
}
static int dec_close(dec_t *d)
{
  al_cur = &d->al;
  int e = (int)ia_mpegh_dec_delete(&d->out);
  return e;
}
static void dec_free(dec_t *d)
{
  al_drop(&d->al);
  free(d->pcm);
  free(d->frame_bytes);
  free(d->inp_copy);
  d->inp_copy = 0;
  d->pcm = 0;
  d->frame_bytes = 0;
}
/* Create, decode the whole stream, keep the PCM.  0 when every step answered without fatal error. */
static int dec_all(dec_t *d, blob st, int max_calls)
{
  d->st = st;
  if (getenv("VF_DUMP"))
  {
    FILE *fo = fopen(getenv("VF_DUMP"), "wb");
    fwrite(st.d, 1, st.n, fo);
    fclose(fo);
  }
  int e = dec_create(d);
  if (is_fatal(e))
    return e;
  if (dec_start(d))
  {
    return d->err_init ? d->err_init : -1;
  }
  dec_run(d, max_calls);
  return d->fatal ? d->err_exec : 0;
}
#endif
