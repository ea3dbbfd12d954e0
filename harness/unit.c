/* Drives the repository's queues: one operation per input line, one line of observations per operation.
 *   Q cap / P cap        a new queue / priority queue
 *   e key data           enqueue               i key data   insert (handles are numbered)
 *   h | t | d            dequeue head, tail; drop   r j | o      remove the j-th oldest by its handle; pop
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "queue.h"
#include "priority_queue.h"

#define MAXH 100000
static node_t *handle[MAXH];
static int alive[MAXH], nalive;

/* the data word is 64 bits wide; both halves carry the number */
#define WIDE 0x100000001ULL
static int narrow(data_t d) {
    return d.value == (d.value >> 32) * WIDE ? (int) (d.value >> 32) : -1;
}

static void pair(node_t *n) {
    if (n)
        printf("[%d,%d]", queue_node_key(n), narrow(queue_node_data(n)));
    else
        printf("[]");
}

static void see_queue(queue_t *q, const char *what) {
    printf("{%s,\"n\":%d,\"cap\":%d,\"head\":", what, queue_size(q), queue_capacity(q));
    pair(queue_head(q));
    printf(",\"tail\":");
    pair(queue_tail(q));
    printf("}\n");
}

static int top_id(pqueue_t *p) {
    node_t *t = pqueue_top(p);
    if (!t)
        return 0;
    for (int i = 0; i < nalive; i++)
        if (handle[alive[i]] == t)
            return alive[i];
    return -1;
}

static void see_pqueue(pqueue_t *p, const char *what, int full) {
    node_t *t = pqueue_top(p);
    printf("{%s,\"n\":%d,\"cap\":%d,\"top\":%d,\"tk\":", what, pqueue_size(p), pqueue_capacity(p), top_id(p));
    if (t)
        printf("[%d,%d]", pqueue_node_key(t), narrow(pqueue_node_data(t)));
    else
        printf("[]");
    printf(",\"full\":%s,\"all\":[", full ? "true" : "false");
    for (int i = 0; full && i < nalive; i++) {
        node_t *n = handle[alive[i]];
        printf("%s[%d,%d,%d]", i ? "," : "", alive[i], pqueue_node_key(n), narrow(pqueue_node_data(n)));
    }
    printf("]}\n");
}

static void forget(int id) {
    for (int i = 0; i < nalive; i++)
        if (alive[i] == id) {
            memmove(alive + i, alive + i + 1, (nalive - i - 1) * sizeof(int));
            nalive--;
            return;
        }
}

int main() {
    char line[200], what[200];
    queue_t *q = NULL;
    pqueue_t *p = NULL;
    int a, b, c, n = 0, last = 0;
    data_t d;
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (fgets(line, sizeof(line), stdin)) {
        n++;
        memset(&d, 0, sizeof(d));
        a = b = c = 0;
        switch (line[0]) {
        case 'Q':
            q = queue_alloc(atoi(line + 1));
            see_queue(q, "\"e\":\"new\"");
            break;
        case 'e': {
            sscanf(line + 1, "%d %d", &a, &b);
            d.value = b * WIDE;
            node_t *h = queue_enqueue(q, a, d);
            if (h)
                sprintf(what, "\"e\":\"enq\",\"k\":%d,\"d\":%d,\"h\":[%d,%d]", a, b, queue_node_key(h), narrow(queue_node_data(h)));
            else
                sprintf(what, "\"e\":\"enq\",\"k\":%d,\"d\":%d,\"h\":[]", a, b);
            see_queue(q, what);
            break;
        }
        case 'h':
            queue_dequeue_head(q);
            see_queue(q, "\"e\":\"deqh\"");
            break;
        case 't':
            queue_dequeue_tail(q);
            see_queue(q, "\"e\":\"deqt\"");
            break;
        case 'd':
            queue_drop(q);
            see_queue(q, "\"e\":\"drop\"");
            break;
        case 'P':
            p = pqueue_alloc(atoi(line + 1));
            see_pqueue(p, "\"e\":\"new\"", 1);
            break;
        case 'i':
            sscanf(line + 1, "%d %d", &b, &c);
            d.value = c * WIDE;
            a = ++last;
            handle[a] = pqueue_insert(p, b, d);
            alive[nalive++] = a;
            sprintf(what, "\"e\":\"ins\",\"h\":%d,\"k\":%d,\"d\":%d", a, b, c);
            see_pqueue(p, what, pqueue_capacity(p) <= 12 || n % 16 == 0);
            break;
        case 'r':
            a = alive[atoi(line + 1)];
            pqueue_remove(p, handle[a]);
            forget(a);
            sprintf(what, "\"e\":\"rm\",\"h\":%d", a);
            see_pqueue(p, what, pqueue_capacity(p) <= 12 || n % 16 == 0);
            break;
        case 'o':
            a = top_id(p);
            pqueue_pop(p);
            forget(a);
            sprintf(what, "\"e\":\"pop\"");
            see_pqueue(p, what, pqueue_capacity(p) <= 12 || n % 16 == 0);
            break;
        }
    }
    if (q)
        queue_free(q);
    if (p)
        pqueue_free(p);
    printf("{\"e\":\"end\"}\n");
    return 0;
}
