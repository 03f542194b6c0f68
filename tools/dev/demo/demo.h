/* Small helpers to build functions through the public interface. */
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static ir_graph *d_irg;

static void d_init(const char *triple)
{
	ir_init_library();
	if (!ir_target_set(triple)) { fprintf(stderr, "no target %s\n", triple); exit(3); }
	ir_target_init();
	set_optimize(1);
}

static ir_type *d_prim(ir_mode *m) { return new_type_primitive(m); }

/* starts a function; res may be NULL */
static ir_entity *d_begin(const char *name, ir_mode *res, unsigned n, ir_mode **params, int n_locals)
{
	ir_type *t = new_type_method(n, res != NULL, 0, 0, 0);
	for (unsigned i = 0; i < n; ++i) set_method_param_type(t, i, d_prim(params[i]));
	if (res) set_method_res_type(t, 0, d_prim(res));
	ir_entity *e = new_global_entity(get_glob_type(), new_id_from_str(name), t, ir_visibility_external, IR_LINKAGE_DEFAULT);
	d_irg = new_ir_graph(e, n_locals);
	set_current_ir_graph(d_irg);
	return e;
}
static ir_node *d_param(unsigned i, ir_mode *m) { return new_Proj(get_irg_args(d_irg), m, i); }
static ir_node *d_int(ir_mode *m, long v) { return new_Const(new_tarval_from_long(v, m)); }
static void d_ret(ir_node *v)
{
	ir_node *r = new_Return(get_store(), v != NULL, &v);
	add_immBlock_pred(get_irg_end_block(d_irg), r);
	mature_immBlock(get_cur_block());
	set_cur_block(NULL);
}
static void d_end(void)
{
	irg_finalize_cons(d_irg);
	if (!irg_verify(d_irg)) { fprintf(stderr, "invalid graph built\n"); exit(3); }
}
static ir_node *d_load(ir_node *p, ir_mode *m)
{
	ir_node *l = new_Load(get_store(), p, m, d_prim(m), cons_none);
	set_store(new_Proj(l, mode_M, pn_Load_M));
	return new_Proj(l, m, pn_Load_res);
}
static void d_store(ir_node *p, ir_node *v)
{
	ir_node *s = new_Store(get_store(), p, v, d_prim(get_irn_mode(v)), cons_none);
	set_store(new_Proj(s, mode_M, pn_Store_M));
}
static ir_node *d_off(ir_node *p, long o)
{
	return new_Add(p, d_int(get_reference_offset_mode(get_irn_mode(p)), o));
}
/* verifies, lowers and emits everything */
static void d_emit(const char *file)
{
	for (size_t i = 0; i < get_irp_n_irgs(); ++i)
		if (!irg_verify(get_irp_irg(i))) { fprintf(stderr, "invalid graph\n"); exit(1); }
	be_lower_for_target();
	FILE *f = fopen(file, "w");
	be_main(f, "demo");
	fclose(f);
}
