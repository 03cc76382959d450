/* my_queue.c with the implementation it selects, under another name for its table of operations. */
#define my_queue_mb_ops my_queue_default_ops
#define my_queue_mutex_ops my_queue_default_ops
#include "libmy/my_queue.c"
