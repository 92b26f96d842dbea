/* callxrtm's input reader and writer as library calls. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "xrtm_interface.h"
#include "xrtm_fd_interface.h"
#include "input_util.h"

struct vi { xrtm_fd_data fd; misc_data md; };

void *vi_new(void) { return calloc(1, sizeof(struct vi)); }
int vi_has_fd(struct vi *v) { return v->md.fd_method >= 0; }
xrtm_fd_data *vi_fd(struct vi *v) { return &v->fd; }
void vi_free(struct vi *v) { misc_free(&v->md); free(v); }
/* array2: the command-line form */
int vi_read_file(xrtm_data *d, struct vi *v, const char *name, int array2) {
    return xrtm_fread_input(d, &v->fd, &v->md, name, ! array2, array2, array2, ! array2);
}
int vi_read_string(xrtm_data *d, struct vi *v, const char *text, int array2) {
    char *s = strdup(text); int r = xrtm_sread_input(d, &v->fd, &v->md, s, ! array2, array2, array2, ! array2);
    free(s); return r;
}
int vi_write(xrtm_data *d, struct vi *v, const char *name, int nl, int aligned, int array2, int dash, int equal) {
    return xrtm_fwrite_input_fn(d, v ? &v->fd : NULL, v ? &v->md : NULL, name, nl, aligned, array2, dash, equal);
}
