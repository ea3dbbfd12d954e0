/* prints the wire layout of messages, taken from the repository's own header */
#include <stddef.h>
#include <stdio.h>
#include "message.h"
#define F(t, f) printf(",\"" #t "." #f "\":[%zu,%zu]", offsetof(t, f), sizeof(((t *)0)->f))
int main(void) {
    printf("{\"hdr\":%zu,\"cmd\":%zu,\"cmdtype\":%zu", offsetof(message_t, cmds), offsetof(command_t, opts), sizeof(command_type_t));
    F(message_t, req_id); F(message_t, req_size); F(message_t, status);
    F(fwd_opts_t, pkt_size); F(fwd_opts_t, fwd_host); F(fwd_opts_t, fwd_port); F(fwd_opts_t, timeout);
    F(fwd_opts_t, retries); F(fwd_opts_t, on_fail_skip); F(fwd_opts_t, proto);
    F(load_opts_t, offset); F(load_opts_t, load_nbytes);
    F(store_opts_t, offset); F(store_opts_t, store_nbytes); F(store_opts_t, wait_sync);
    F(comp_opts_t, comp_time_us); F(reply_opts_t, resp_size); F(reply_opts_t, n_ack);
    printf(",\"sz\":{\"C\":%zu,\"S\":%zu,\"L\":%zu,\"F\":%zu,\"R\":%zu}", sizeof(comp_opts_t), sizeof(store_opts_t),
           sizeof(load_opts_t), sizeof(fwd_opts_t), sizeof(reply_opts_t));
    printf(",\"op\":{\"C\":%d,\"S\":%d,\"L\":%d,\"P\":%d,\"F\":%d,\"M\":%d,\"R\":%d,\"E\":%d}", COMPUTE, STORE, LOAD, PSKIP,
           FORWARD, MULTI_FORWARD, REPLY, EOM);
    printf(",\"udp\":%d,\"tcp\":%d}\n", UDP, TCP);
    return 0;
}
