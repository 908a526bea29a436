// Bodies of the few non-template helpers of the C++ standard library that live in libstdc++.so: ordinary (unbalanced)
// binary search tree maintenance with the same observable behaviour, so that std::map/std::set can be analysed like the rest.
namespace std {
static _Rb_tree_node_base* vf_inc( _Rb_tree_node_base* x)
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
static _Rb_tree_node_base* vf_dec( _Rb_tree_node_base* x)
{
	if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
	_Rb_tree_node_base* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
_Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x) throw() { return vf_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x) throw() { return vf_inc( const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x) throw() { return vf_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x) throw() { return vf_dec( const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if (left)
	{
		p->_M_left = x;
		if (p == &header) { header._M_parent = x; header._M_right = x; }
		else if (p == header._M_left) header._M_left = x;
	}
	else
	{
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
	_Rb_tree_node_base* x;
	if (z->_M_left == 0) x = z->_M_right;
	else if (z->_M_right == 0) x = z->_M_left;
	else
	{
		// splice the successor in place of z
		_Rb_tree_node_base* y = z->_M_right;
		while (y->_M_left) y = y->_M_left;
		if (y->_M_parent != z)
		{
			y->_M_parent->_M_left = y->_M_right;
			if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
			y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
		}
		y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
		x = y;
	}
	if (x) x->_M_parent = z->_M_parent;
	if (header._M_parent == z) header._M_parent = x;
	else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
	else z->_M_parent->_M_right = x;
	if (header._M_parent)
	{
		_Rb_tree_node_base* q = header._M_parent; while (q->_M_left) q = q->_M_left; header._M_left = q;
		q = header._M_parent; while (q->_M_right) q = q->_M_right; header._M_right = q;
	}
	else { header._M_left = &header; header._M_right = &header; }
	return z;
}
namespace __detail {
void _List_node_base::_M_hook( _List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
}
