#include "v.h"
#include "coap_msg.h"
void vp_init(void);
int harness(void)
{
    coap_msg_t msg;
    size_t len;
    char *buf;
    ssize_t r;
    vp_init();
    len = v_long(0, 65535);
    buf = v_cbuf(len);
    coap_msg_create(&msg);
    r = coap_msg_parse(&msg, buf, len);
    v_mark("parse-returned");
    if (r == 0) v_reach("accepted"); else v_reach("rejected");
    v_assert(r <= 0, "return value is 0 or negative");
    coap_msg_destroy(&msg);
    v_assert_noleak("blocks not returned to the pools");
    return 0;
}
