/*
 * View of libks/list.h in which every list operation is a call, so that the
 * analyses see operations on lists instead of the pointer updates they consist
 * of.  The operations themselves are analysed on their own (lists.py).
 */
#define LIBKS_LIST_H

struct token;
struct token_list;

#define VP_OPS(p)						\
void	*vp_##p##_first(const void *);				\
void	*vp_##p##_last(const void *);				\
void	*vp_##p##_next(const void *);				\
void	*vp_##p##_prev(const void *);				\
int	 vp_##p##_linked(const void *);				\
void	 vp_##p##_init(void *);					\
void	 vp_##p##_insert_head(void *, void *);			\
void	 vp_##p##_insert_tail(void *, void *);			\
void	 vp_##p##_insert_after(void *, void *, void *);		\
void	 vp_##p##_insert_before(void *, void *);		\
void	 vp_##p##_remove(void *, void *);			\
void	 vp_##p##_concat(void *, void *)
VP_OPS(list);
VP_OPS(tlist);

#define VP_E(elm, op)						\
	_Generic((elm), struct token *: vp_tlist_##op,		\
	    const struct token *: vp_tlist_##op, default: vp_list_##op)
#define VP_H(head, op)	VP_E((head)->tqh_first, op)

#define LIST(name, type)					\
struct name {							\
	struct type *tqh_first;					\
	struct type **tqh_last;					\
}
#define LIST_ENTRY(name, type)					\
struct {							\
	struct type *tqe_next;					\
	union {							\
		struct name *list;				\
		struct type **ptr;				\
	} tqe_prev;						\
} list_entry
#define LIST_FIELD(elm)			(elm)->list_entry
#define LIST_FIRST(head)					\
	((__typeof__((head)->tqh_first))VP_H(head, first)(head))
#define LIST_LAST(head)						\
	((__typeof__((head)->tqh_first))VP_H(head, last)(head))
#define LIST_NEXT(elm)						\
	((__typeof__((elm)->list_entry.tqe_next))VP_E(elm, next)(elm))
#define LIST_PREV(elm)						\
	((__typeof__((elm)->list_entry.tqe_next))VP_E(elm, prev)(elm))
#define LIST_EMPTY(head)	(LIST_FIRST(head) == (void *)0)
#define LIST_LINKED(elm)	VP_E(elm, linked)(elm)
#define LIST_FOREACH(var, head)					\
	for ((var) = LIST_FIRST(head); (var) != (void *)0; (var) = LIST_NEXT(var))
#define LIST_FOREACH_SAFE(var, head, tvar)			\
	for ((var) = LIST_FIRST(head);				\
	    (var) != (void *)0 && ((tvar) = LIST_NEXT(var), 1);	\
	    (var) = (tvar))
#define LIST_FOREACH_REVERSE(var, head)				\
	for ((var) = LIST_LAST(head); (var) != (void *)0; (var) = LIST_PREV(var))
#define LIST_FOREACH_REVERSE_SAFE(var, head, tvar)		\
	for ((var) = LIST_LAST(head);				\
	    (var) != (void *)0 && ((tvar) = LIST_PREV(var), 1);	\
	    (var) = (tvar))
#define LIST_INIT(head)			VP_H(head, init)(head)
#define LIST_INSERT_HEAD(head, elm)	VP_E(elm, insert_head)((head), (elm))
#define LIST_INSERT_TAIL(head, elm)	VP_E(elm, insert_tail)((head), (elm))
#define LIST_INSERT_AFTER(head, at, elm) VP_E(elm, insert_after)((head), (at), (elm))
#define LIST_INSERT_BEFORE(at, elm)	VP_E(elm, insert_before)((at), (elm))
#define LIST_REMOVE(head, elm)		VP_E(elm, remove)((head), (elm))
#define LIST_CONCAT(head1, head2)	VP_H(head1, concat)((head1), (head2))
