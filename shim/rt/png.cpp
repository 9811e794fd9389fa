/* libpng, as far as a picture can be written with it: keeps what it is given. */
#include <cstdio>
#include <cstdlib>
#include <png.h>
extern "C" {
unsigned vpng_w, vpng_h, vpng_n; bool vpng_written, vpng_closed; unsigned char vpng_px[4096];
static png_bytepp rows_; static FILE *io_; static int depth_, type_;
static jmp_buf jb_;
png_structp png_create_write_struct(png_const_charp, png_voidp, png_error_ptr, png_error_ptr) { vpng_written = vpng_closed = false; rows_ = 0; io_ = 0; vpng_n = 0; return (png_structp)malloc(1); }
png_infop png_create_info_struct(png_const_structrp) { return (png_infop)malloc(1); }
jmp_buf *png_set_longjmp_fn(png_structrp, png_longjmp_ptr, size_t) { return &jb_; }
int _setjmp(struct __jmp_buf_tag *) { return 0; }
void png_set_IHDR(png_const_structrp, png_inforp, png_uint_32 w, png_uint_32 h, int depth, int type, int, int, int) { vpng_w = w; vpng_h = h; depth_ = depth; type_ = type; }
png_voidp png_malloc(png_const_structrp, png_alloc_size_t n) { return malloc(n); }
void png_free(png_const_structrp, png_voidp p) { free(p); }
void png_init_io(png_structrp, png_FILE_p f) { io_ = f; }
void png_set_rows(png_const_structrp, png_inforp, png_bytepp r) { rows_ = r; }
static void put_row(const unsigned char *r) { for (unsigned x = 0; x < vpng_w * 3; x++) vpng_px[vpng_n++] = r[x]; }
void png_write_png(png_structrp, png_inforp, int, png_voidp) {
    if (!io_ || depth_ != 8 || type_ != PNG_COLOR_TYPE_RGB) return;
    vpng_n = 0;
    for (unsigned y = 0; y < vpng_h; y++) put_row(rows_[y]);
    vpng_written = true;
}
void png_write_info(png_structrp, png_const_inforp) { vpng_n = 0; }
void png_write_row(png_structrp, png_const_bytep r) { put_row(r); }
void png_write_image(png_structrp, png_bytepp r) { for (unsigned y = 0; y < vpng_h; y++) put_row(r[y]); }
void png_write_end(png_structrp, png_inforp) { if (io_ && depth_ == 8 && type_ == PNG_COLOR_TYPE_RGB) vpng_written = true; }
void png_destroy_write_struct(png_structpp p, png_infopp i) { if (p && *p) { free(*p); *p = 0; } if (i && *i) { free(*i); *i = 0; } }
}
void verif_on_fclose(FILE *f) { if (f == io_) vpng_closed = true; }
