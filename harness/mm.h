/* Message model: the public interface of coap_msg.h with arbitrary parsed messages. */
#ifndef MM_H
#define MM_H
#include "v.h"
#include "coap_msg.h"
#define TAG_MSG 77
typedef struct {           /* what the options and the payload of a message say */
    unsigned bad;          /* first bad option, 0 if none */
    int path;              /* 0: "x", 1: "s" */
    int b1, b2;            /* block options: 0 valid, 1 absent, -EINVAL malformed */
    unsigned b1num, b1more, b1size, b2num, b2more, b2size;
    unsigned sig;          /* identity of the content */
} mm_body_t;
/* last message formatted (the bytes handed out are opaque) */
extern char *mm_f_buf; extern long mm_f_len;
extern int vg_f_type; extern int vg_f_empty; extern unsigned mm_f_cls, mm_f_det, mm_f_id, mm_f_tklen, mm_f_sig, mm_f_plen; extern char mm_f_token[8];
extern unsigned mm_f_b1num, mm_f_b1more, mm_f_b1size, mm_f_b2num, mm_f_b2more, mm_f_b2size; extern int vg_f_b1, vg_f_b2, vg_p1size, vg_p2size, vg_p1, vg_p2;
/* hooks of the harness */
void mm_parsed(coap_msg_t *msg, mm_body_t *b);      /* a received message was decoded */
void mm_malformed(int type, unsigned id);           /* a received datagram was refused */
void mm_payload(const char *buf, size_t len);         /* a payload was put into a message */
void mm_header(coap_msg_t *msg);                     /* id and token of a received message (MM_HEADER) */
int mm_fault(void);                                 /* may an operation fail now? */
mm_body_t *mm_body(coap_msg_t *msg);
#endif
