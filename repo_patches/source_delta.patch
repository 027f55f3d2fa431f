From 0720d691664f0b54dde89ba103726eda264c417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 01/45] fix: materialize the Jacobian of
 ForwardLaplacianOperator under jit

The sparse Jacobian's index tensor left the inner jit as a traced array, so
jitting an operator with sparse output (as the README does) raised a
ConcretizationTypeError. The Jacobian also lacked the trailing inputs that the
function does not depend on, unlike the other operators.
---
 folx/operators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..8a1d3fc 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -29,11 +29,17 @@ class ForwardLaplacianOperator(LaplacianOperator):
     sparsity_threshold: float | int
 
     def __call__(self, f):
-        fwd_lapl = forward_laplacian(f, self.sparsity_threshold)
+        # The sparsity pattern of the Jacobian must remain static until it is materialized.
+        # So, we have to jit the evaluation and the materialization together.
+        fwd_lapl = forward_laplacian(f, self.sparsity_threshold, disable_jit=True)
 
+        @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            jacobian = result.jacobian.dense_array
+            # The Jacobian may lack the trailing inputs if f doesn't depend on them.
+            padding = [(0, x.size - jacobian.shape[0])] + [(0, 0)] * result.ndim
+            return result.laplacian, jnp.pad(jacobian, padding)
 
         return lap
 
-- 
2.43.0


From 59a999ba522e4f67cc0ef04869164643f473d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 02/45] fix: sum the second derivatives in Loop- and
 ParallelLaplacianOperator

Both returned the vector of second derivatives instead of the Laplacian.
---
 folx/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 8a1d3fc..495c390 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -63,7 +63,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return laplacian.sum(), jacobian
 
         return laplacian
 
@@ -79,7 +79,7 @@ class ParallelLaplacianOperator(LaplacianOperator):
             grad_f = jax.grad(f)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From 3fa3be747331f46d75dce0967d2d2032c88cbb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 03/45] fix: evaluate f on the original input shape in
 ParallelLaplacianOperator

---
 folx/operators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index 495c390..39f5f07 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -73,10 +73,15 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
             laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
-- 
2.43.0


From 0f916a42d28db91b2fc6c971da9875bd4b35113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 04/45] fix: read literals as arrays of their type

Literals in a jaxpr may hold Python scalars, which lack the ndim and dtype that
the forward Laplacian rules rely on, e.g., jax.lax.pad(x, 0.0, ...).
---
 folx/interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..18af188 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -58,7 +58,8 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars
+            return np.asarray(var.val, dtype=var.aval.dtype)  # type: ignore
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 962ffad99e5ce6d9493df961834b1476db61037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 05/45] fix: accept constant NumPy arrays and mixed array types
 in scan

Constants of a jaxpr may be NumPy arrays, which the input dependence check
rejected as if they depended on the input. Similarly, a carry that does not
depend on the input may change between NumPy array, jax array and tracer.
---
 folx/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 18af188..5ace595 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -92,8 +92,8 @@ def eval_jaxpr_with_forward_laplacian(
             invals[n_const + n_carry :],
         )
         carry_merge = extract_jacobian_mask(in_carry)
-        assert all(
-            isinstance(x, Array) for x in in_inp
+        assert not any(
+            isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
         def wrapped(carry, x):
@@ -110,7 +110,7 @@ def eval_jaxpr_with_forward_laplacian(
         first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
+            if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
                 raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
             if isinstance(a, FwdLaplArray):
                 if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-- 
2.43.0


From 386b956d5dd02a03d38331a840fdd941eb76e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 06/45] fix: keep the Jacobian dimension in front in the
 stacked outputs of scan

lax.scan stacks all leaves along their first axis. For Jacobians, this is
JAC_DIM, so the Jacobian and the mask of stacked outputs were malformed: the
dense Jacobian silently was transposed, the sparse one failed to broadcast.
---
 folx/interpreter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 5ace595..aed86cb 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -15,6 +15,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -96,6 +97,15 @@ def eval_jaxpr_with_forward_laplacian(
             isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
+        def stack_jacobian(stacked: FwdJacobian, first: FwdJacobian):
+            data = jnp.moveaxis(stacked.data, 0, JAC_DIM + 1)
+            x0_idx = first.x0_idx
+            if x0_idx is not None:
+                x0_idx = np.broadcast_to(
+                    np.expand_dims(x0_idx, JAC_DIM + 1), data.shape
+                )
+            return FwdJacobian(data, x0_idx)
+
         def wrapped(carry, x):
             result = eval_jaxpr_with_forward_laplacian(
                 eqn.params['jaxpr'].jaxpr,
@@ -129,8 +139,9 @@ def eval_jaxpr_with_forward_laplacian(
             else a
             for a, b in zip(carry, first_carry)
         ]
+        # Scan stacks along the first axis but the first axis of a jacobian is JAC_DIM.
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=stack_jacobian(a.jacobian, b.jacobian))  # type: ignore
             if isinstance(a, FwdLaplArray)
             else a
             for a, b in zip(y, first_y)
-- 
2.43.0


From 72da4280bd5bdb9a70ee08bf72bb589b9fa3234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 07/45] fix: support multiple outputs in the general sparse jvp

The mask was only broadcast to a single output. Operations that return several
values (or a list), e.g., sort, cond, checkpoint and custom_jvp functions like
relu, failed with an AttributeError as soon as their input was sparse.
---
 folx/jvp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..db5cb00 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -180,8 +180,10 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
+    # The function may have several outputs, they all share the same mask.
+    new_masks = jtu.tree_map(lambda g: broadcast_mask_to_jacobian(out_mask, g), grad_y)
+    for g, m in zip(jtu.tree_leaves(grad_y), jtu.tree_leaves(new_masks)):
+        assert g.shape == m.shape, f'{g.shape} != {m.shape}'
 
     grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
     return y, grad_y, lapl_y
-- 
2.43.0


From ee5c31a6b1f9a30fdece58f53d20e7dfd3d709de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 08/45] fix: add sparse Jacobians of different widths

FwdJacobian.__add__ compared the index tensors elementwise, which fails if the
two Jacobians have a different number of non-zero entries, e.g., for
jnp.linalg.matrix_power(x, 3) or x.at[0].multiply(x[1]).
---
 folx/api.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..ac4155d 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,11 +213,8 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
-            return FwdJacobian(
-                self.data + other.data,
-                np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-            )  # type: ignore
+        if np.array_equal(other.x0_idx, self.x0_idx):  # type: ignore
+            return FwdJacobian(self.data + other.data, self.x0_idx)
         return FwdJacobian(
             data=jnp.concatenate((self.data, other.data), axis=JAC_DIM),
             x0_idx=np.concatenate((self.x0_idx, other.x0_idx), axis=JAC_DIM),  # type: ignore
-- 
2.43.0


From 985b4d4ae0d44b278f1531741a1949170b90ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 09/45] fix: sum duplicate indices in the sparse complex abs

The custom Tr(JHJ^T) used the raw data of sparse Jacobians, where one index may
appear several times, e.g., after X @ X. This silently gave wrong Laplacians.
---
 folx/custom_hessian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index f1d0db6..d168e68 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -70,7 +70,8 @@ def complex_abs_jac_hessian_jac(
     if not is_tree_complex(args.x):
         return jnp.zeros(())
 
-    x, J = args.x[0], args.jacobian[0].data
+    # Sparse jacobians may contain the same index several times, these must be summed first.
+    x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
 
     x_J = x.real * J.real + x.imag * J.imag
-- 
2.43.0


From 5ac71ffb83ce49e98d4db3cd097ac0738ff2f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 10/45] fix: add multiple outputs leaf by leaf in the one by
 one jvp

Adding the lists of several outputs concatenated them, so any operation with
several outputs and several sparse inputs failed.
---
 folx/jvp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index db5cb00..a077f3b 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -21,7 +21,7 @@ from .api import (
     MergeFn,
     PyTree,
 )
-from .tree_utils import tree_concat, tree_expand, tree_take
+from .tree_utils import tree_add, tree_concat, tree_expand, tree_take
 from .utils import (
     broadcast_dim,
     broadcast_except,
@@ -562,8 +562,14 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                # The function may have several outputs, so we have to add leaf by leaf.
+                grad = jtu.tree_map(
+                    lambda a, b: a + b,
+                    grad,
+                    grad_,
+                    is_leaf=lambda x: isinstance(x, FwdJacobian),
+                )
+                lapl = tree_add(lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 2cae9deff35cb1786a63934bf623c5172a12b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 11/45] fix: support multiple outputs in the elementwise sparse
 jvp

Scalar inputs of an operation that returns a list, e.g., jax.nn.relu(x.sum()),
failed with an AttributeError.
---
 folx/jvp.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index a077f3b..3a7e938 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -241,16 +241,21 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            lambda g: jax.ops.segment_sum(
+                g, inv, num_segments=result_mask.shape[JAC_DIM]
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
+    # The function may have several outputs, they all share the same mask.
+    masks = jtu.tree_map(lambda g: broadcast_mask_to_jacobian(result_mask, g), grad_y)
+    for g, m in zip(jtu.tree_leaves(grad_y), jtu.tree_leaves(masks)):
+        assert g.shape == m.shape, f'{g.shape} != {m.shape}'
 
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    grad_y = jtu.tree_map(FwdJacobian, grad_y, masks)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From 78a44b13981fe425328dab6e75f6396783aa3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 12/45] fix: return integer outputs of wrapped functions as
 regular arrays

Integer and boolean outputs have no derivatives, their float0 tangents raised
TypeErrors, e.g., for argmax, argsort, top_k or x[jnp.argmax(x)].
---
 folx/wrapper.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/folx/wrapper.py b/folx/wrapper.py
index 0bf9490..a9085b9 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -3,6 +3,7 @@ import warnings
 from typing import Any, ParamSpec, TypeVar
 
 import jax
+import jax.numpy as jnp
 from jax.numpy import ComplexWarning
 
 from .api import (
@@ -100,6 +101,29 @@ def wrap_forward_laplacian(
 
         # construct operation
         partial_fn = functools.partial(fn, **kwargs)
+        # Integer and boolean outputs have no derivatives. So, we only propagate through
+        # the other ones and return these as regular arrays.
+        x = tuple(a.x for a in lapl_args)
+        out_shapes = jax.eval_shape(lambda *x: partial_fn(*merge(x, extra)), *x)
+        is_diff = [
+            jax.dtypes.issubdtype(o.dtype, jnp.inexact)
+            for o in jax.tree_util.tree_leaves(out_shapes)
+        ]
+        if not any(is_diff):
+            return partial_fn(*merge(x, extra))
+        if not all(is_diff):
+
+            def diff_fn(*args):
+                leaves = jax.tree_util.tree_leaves(fn(*args, **kwargs))
+                return [l for l, d in zip(leaves, is_diff) if d]
+
+            y, out_tree = jax.tree_util.tree_flatten(partial_fn(*merge(x, extra)))
+            diff_y = wrap_forward_laplacian(
+                diff_fn, in_axes, flags, name, index_static_args, custom_jac_hessian_jac
+            )(args, {}, sparsity_threshold)
+            it = iter(diff_y)
+            return out_tree.unflatten([next(it) if d else o for o, d in zip(y, is_diff)])
+
         setattr(partial_fn, '__name__', name or getattr(fn, '__name__', 'partial'))
         lapl_fns = construct_fwd_laplacian_functions(
             partial_fn,
-- 
2.43.0


From 9d2a1dde6381e7dbe50e0395b58a2688f73e29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 13/45] fix: restrict the fast path of sparse dot products to
 matching outputs

The product of the unarranged operands was taken even if the broadcast
dimensions of both operands overlap or the batch dimensions are not in front,
which silently returned wrong shapes and values, e.g., einsum('bi,cbi->bc').
---
 folx/wrapped_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..c1e7bef 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -147,14 +147,19 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and (not lh_brdcast_dims or not rh_brdcast_dims)
+            and (not lh_batch_dims or not (lh_brdcast_dims or rh_brdcast_dims))
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that brdcast dims of lhs and rhs do not overlap
+            # * check that the output, i.e., batch dims before brdcast dims, needs no
+            #   transposition either
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From e919056ea11a00d1771910ff98aaa5f9d7d90073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 14/45] fix: align the sparse output indices with the arguments
 in Tr(JHJ^T)

The index tensor only had the non-trivial dimensions of the arguments, while it
was combined with arguments, dimensions of constants, and masks that include
dimensions of size one. This raised errors, e.g., for
einsum('aij,akj->aik') with a=1, einsum('i,k->ik', x[:4], x[3:]) or
logaddexp(x[None], c[:, None]), whenever the inputs are sparse.
---
 folx/hessian.py | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..6ca7ec0 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -195,6 +195,18 @@ def merge_and_populate(
     return np.asarray(result, dtype=int)
 
 
+def get_batch_shape(lapl_args: FwdLaplArgs, in_axes) -> tuple[int, ...]:
+    """
+    Returns the broadcasted shape of all arguments without the axes in in_axes.
+    """
+    return np.broadcast_shapes(
+        *[
+            tuple(s for i, s in enumerate(x.shape) if i not in axes)
+            for x, axes in zip(lapl_args.x, in_axes)
+        ]
+    )
+
+
 def find_out_idx(lapl_args: FwdLaplArgs, in_axes, flags: FunctionFlags, threshold: int):
     if not lapl_args.any_jacobian_weak:
         return None, True
@@ -245,6 +257,9 @@ def find_out_idx(lapl_args: FwdLaplArgs, in_axes, flags: FunctionFlags, threshol
     else:
         idx = merge_and_populate(filtered_arrs, np.union1d)  # type: ignore
     idx = np.moveaxis(idx, -1, JAC_DIM)
+    # All dimensions of size 1 have been squeezed, let's put them back such that the
+    # index tensor can be broadcasted against the arguments.
+    idx = idx.reshape(idx.shape[JAC_DIM], *get_batch_shape(lapl_args, in_axes))
 
     if idx.shape[JAC_DIM] >= max_size or idx.shape[JAC_DIM] > threshold:
         return idx, True
@@ -269,7 +284,8 @@ def remove_zero_entries(
     new_mat_idx = out_idx[(slice(None), *indices)]
     new_arrs = []
     for arg in lapl_args.arrays:
-        brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
+        # The last dimension is contracted
+        brdcast_dims = np.where(np.array(arg.x.shape[:-1]) == 1)[0]
         idx = tuple(0 if i in brdcast_dims else x for i, x in enumerate(indices))
         new_arrs.append(
             FwdLaplArray(
@@ -323,10 +339,17 @@ def vmapped_jac_hessian_jac(
     else:
         mask = None
 
+    # By compressing out_idx we can reduce the number of non-coalesced memory accesses.
+    if out_idx is not None:
+        out_idx, _ = compact_repeated_dims_except(out_idx, JAC_DIM)
     # Broadcast and flatten all arguments
-    vmap_seq, (lapl_args, extra_args) = vmap_sequences_and_squeeze(
-        (lapl_args, extra_args),
-        (add_vmap_jacobian_dim(lapl_args, FwdLaplArgs(in_axes)), extra_in_axes),
+    vmap_seq, (lapl_args, extra_args, out_idx) = vmap_sequences_and_squeeze(
+        (lapl_args, extra_args, out_idx),
+        (
+            add_vmap_jacobian_dim(lapl_args, FwdLaplArgs(in_axes)),
+            extra_in_axes,
+            None if out_idx is None else (JAC_DIM,),
+        ),
     )
 
     # Hessian computation
@@ -349,20 +372,9 @@ def vmapped_jac_hessian_jac(
             result = general_jac_hessian_jac(merged_fn, args, out_idx)
         return result
 
-    # TODO: this implementation also assumes that we only reduce the last dimension.
-    if out_idx is not None:
-        # By compressing out_idx we can reduce the number of non-coalesced memory accesses.
-        out_idx, compressed_axes = compact_repeated_dims_except(out_idx, JAC_DIM)
-        out_idx_seq: list[int | None] = [1] * len(vmap_seq)
-        for c in compressed_axes[::-1]:
-            out_idx_seq[c - 1] = None
-            out_idx = jnp.take(out_idx, 0, axis=c)
-    else:
-        out_idx_seq = [None] * len(vmap_seq)
-
     # vectorize the Tr(JHJ^T)
-    for axes, oia in zip(vmap_seq[::-1], out_idx_seq[::-1]):
-        hess_transform = jax.vmap(hess_transform, in_axes=(*axes, oia))
+    for axes in vmap_seq[::-1]:
+        hess_transform = jax.vmap(hess_transform, in_axes=axes)
 
     # flatten to 1D and then unravel to the original structure
     result = hess_transform(lapl_args, extra_args, out_idx)
-- 
2.43.0


From 37fa7685ab381ffb27c3167bb1c500a68f1e5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 15/45] fix: pass keyword arguments to the function as
 constants

Keyword arguments became additional inputs of the jaxpr without a value, so
forward_laplacian(f)(x, c=c) always failed.
---
 folx/interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index aed86cb..90aec37 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -295,7 +295,9 @@ def forward_laplacian(
         args_arr = jtu.tree_map(
             lambda x: x.x if IS_LPL_ARR(x) else x, args, is_leaf=IS_LEAF
         )
-        closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
+        # Keyword arguments are constants
+        fn_with_kwargs = functools.partial(fn, **kwargs)
+        closed_jaxpr = jax.make_jaxpr(fn_with_kwargs)(*args_arr)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
@@ -310,7 +312,7 @@ def forward_laplacian(
             *lapl_args,
             sparsity_threshold=threshold,
         )
-        out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
+        out_structure = jtu.tree_structure(jax.eval_shape(fn_with_kwargs, *args_arr))
         return out_structure.unflatten(out)
 
     if disable_jit:
-- 
2.43.0


From 997983b1cfc6c10d0d624780d2882a9eee21d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 16/45] fix: broadcast weights to the argument trees

The weights were matched against the flat list of all leaves, so nested weights
failed although they are documented to be tree broadcastable like in vmap.
---
 folx/interpreter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 90aec37..e1d8bdb 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -303,6 +303,14 @@ def forward_laplacian(
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
         else:
             threshold = int(sparsity_threshold)
+        # Broadcast the weights to the arguments and flatten them like the arguments
+        def broadcast_weights(weight, tree):
+            return jtu.tree_map(lambda _: weight, tree, is_leaf=IS_LEAF)
+
+        if weights is not None and not jtu.treedef_is_leaf(jtu.tree_structure(weights)):
+            weights = tuple(
+                jtu.tree_leaves(jtu.tree_map(broadcast_weights, weights, args))
+            )
         lapl_args = init_forward_laplacian_state(
             *flat_args, sparsity=threshold > 0, weights=weights
         )
-- 
2.43.0


From f7d05d188a98330d254572a136bbb06aad837ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 17/45] fix: linear solves with sparse Jacobians

Propagating through the matrix and its factorization one by one fails with
symbolic zeros in JAX's JVP rule, so jnp.linalg.inv and solve raised a TypeError
for sparse inputs.
---
 folx/wrapped_functions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index c1e7bef..4438119 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -6,6 +6,7 @@ import jax
 import jax.numpy as jnp
 import jax.tree_util as jtu
 import numpy as np
+from jax._src.lax.control_flow.solves import linear_solve_p
 from jax.core import Primitive
 
 from folx.ad import is_tree_complex
@@ -299,6 +300,20 @@ def abs_wrapper(
     )
 
 
+def linear_solve_wrapper(
+    args: tuple[Any, ...],
+    kwargs: dict[str, Any],
+    sparsity_threshold: int,
+):
+    # The JVP rule of linear solves requires the tangents of the matrix and its
+    # factorization at the same time. So, we must not propagate one by one as it is done
+    # for sparse jacobians. The solution depends on all inputs anyway.
+    args = tuple(a.dense if isinstance(a, FwdLaplArray) else a for a in args)
+    return wrap_forward_laplacian(linear_solve_p.bind, name='linear_solve')(
+        args, kwargs, sparsity_threshold=0
+    )
+
+
 _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.conj_p: wrap_elementwise(jnp.conj),
     jax.lax.imag_p: wrap_elementwise(jnp.imag),
@@ -437,6 +452,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.or_p: warp_without_fwd_laplacian(jax.lax.bitwise_or),
     jax.lax.is_finite_p: warp_without_fwd_laplacian(jax.lax.is_finite),
     jax.lax.convert_element_type_p: dtype_conversion,
+    linear_solve_p: linear_solve_wrapper,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
     'sigmoid': wrap_forward_laplacian(jax.nn.sigmoid, in_axes=()),
-- 
2.43.0


From 634041aa5ca450c4e2b5291be3b4eb1722746497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 18/45] fix: support None in the out_axes of batched_vmap

Unlike jax.vmap, batched_vmap failed for unbatched outputs.
---
 folx/vmap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..1f5ec16 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -73,9 +73,12 @@ def batched_vmap(
                 lambda x, r: jnp.concatenate([r, x], axis=0), result, remainder_result
             )
 
-        out_axes_flat, out_tree = jtu.tree_flatten(out_axes)
+        out_axes_flat, out_tree = jtu.tree_flatten(out_axes, lambda x: x is None)
+        if None in out_axes_flat:
+            # Let JAX verify that these outputs are not batched.
+            jax.eval_shape(jax.vmap(wrapped_fn, in_axes, out_axes), *args)
         result = tuple(
-            jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
+            jtu.tree_map(lambda x: x[0] if ax is None else jnp.moveaxis(x, 0, ax), r)
             for r, ax in zip(out_tree.flatten_up_to(result), out_axes_flat)
         )
         return out_tree.unflatten(result)
-- 
2.43.0


From 8ec4699b7e7560090346755ed68527f7a7c05b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 19/45] fix: estimate the memory of scans without inputs

compute_memory took the length from the first scanned array, which is missing in
loops like lax.scan(f, x, None, length=n) or lax.fori_loop.
---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..e79a8c5 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -119,7 +119,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
-- 
2.43.0


From 21b60d22c0e1297c2939c9f3463dfd29cbd4878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 20/45] fix: support keyword arguments in compute_memory

---
 folx/experimental/memory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index e79a8c5..9637d39 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -196,7 +196,9 @@ def compute_memory(
     """
     if isinstance(static_argnums, int):
         static_argnums = (static_argnums,)
-    closed_jaxpr = jax.make_jaxpr(f, static_argnums=static_argnums)(*args, **kwargs)
+    # Keyword arguments are constants
+    f = functools.partial(f, **kwargs)
+    closed_jaxpr = jax.make_jaxpr(f, static_argnums=static_argnums)(*args)
     # enclose function
     fn = functools.partial(
         _compute_jaxpr_memory,
-- 
2.43.0


From f9c44a1080cf66341e99443fb044d6a0ac5eceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 21/45] fix: scatter with both dense and sparse Jacobians

---
 folx/jvp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/folx/jvp.py b/folx/jvp.py
index 3a7e938..b9e6a27 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -351,6 +351,10 @@ def sparse_scatter_jvp(
     operand, scatter_indices, updates = merge(laplace_args.arrays, extra_args)  # type: ignore
     if isinstance(scatter_indices, FwdLaplArray):
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
+    if FunctionFlags.INDEXING in flags:
+        # The updates overwrite elements of the operand and, thus, also their Jacobian.
+        # The sparse implementation below only supports adding the updates.
+        return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
     if not isinstance(updates, FwdLaplArray) and FunctionFlags.LINEAR in flags:
         # operand must be a fwdlapl array by exclusion since at least one has to be.
         y: Array = fwd(*laplace_args.x)  # type: ignore
-- 
2.43.0


From 64a39fddabc94c77c2bb7c1d761e4441e7a7379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 22/45] fix: do not use the rules of functions for their
 derivatives

---
 folx/interpreter.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e1d8bdb..ce60400 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -150,13 +150,27 @@ def eval_jaxpr_with_forward_laplacian(
 
     def eval_pjit(eqn: core.JaxprEqn, invals):
         name = eqn.params['name']
-        if fn := get_laplacian(name):
-            # TODO: this is a bit incomplete, e.g., kwargs?
-            outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
-            if isinstance(outvals, (FwdLaplArray, Array)):
-                outvals = [outvals]  # TODO: Figure out how to properly handle outvals
-            return outvals
         sub_expr: core.ClosedJaxpr = eqn.params['jaxpr']
+        if fn := get_laplacian(name):
+            # JAX keeps the name of a function for its derivatives, e.g., in jax.grad.
+            # Only functions that were not transformed have debug information.
+            is_transformed = sub_expr.jaxpr.debug_info is None
+            try:
+                # TODO: this is a bit incomplete, e.g., kwargs?
+                outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
+                if isinstance(outvals, (FwdLaplArray, Array)):
+                    outvals = [
+                        outvals
+                    ]  # TODO: Figure out how to properly handle outvals
+                if not is_transformed or (
+                    [(x.shape, x.dtype) for x in outvals]
+                    == [(x.aval.shape, x.aval.dtype) for x in eqn.outvars]  # type: ignore
+                ):
+                    return outvals
+            except TypeError:
+                # The derivatives may take a different number of arguments.
+                if not is_transformed:
+                    raise
         return eval_jaxpr_with_forward_laplacian(
             sub_expr.jaxpr,
             sub_expr.literals,
-- 
2.43.0


From 108d2f688a4cc3d3859abb1937e5d2be7d7293dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 23/45] fix: treat empty arrays as independent of the input

---
 folx/interpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index ce60400..a7ce67e 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -69,6 +69,9 @@ class JaxExprEnvironment:
         return result
 
     def write(self, var: core.Var, val: ArrayOrFwdLaplArray):
+        if isinstance(val, FwdLaplArray) and val.size == 0:
+            # Empty arrays do not depend on the input.
+            val = val.x
         if self.reference_counter[var] > 0:
             self.env[var] = val
 
-- 
2.43.0


From 533eab47b0c804297ae3c5848e2fc2e4033bb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 24/45] fix: accept Python scalars without jit

---
 folx/interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index a7ce67e..8b0b378 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -315,7 +315,11 @@ def forward_laplacian(
         # Keyword arguments are constants
         fn_with_kwargs = functools.partial(fn, **kwargs)
         closed_jaxpr = jax.make_jaxpr(fn_with_kwargs)(*args_arr)
-        flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
+        # Without jit, the arguments may be Python scalars
+        flat_args = [
+            x if IS_LPL_ARR(x) else jnp.asarray(x)
+            for x in jtu.tree_leaves(args, is_leaf=IS_LEAF)
+        ]
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
         else:
-- 
2.43.0


From 3a0a0ab836eb20f4906c730cf4815c97c45f43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 25/45] fix: keep the input types in the initial Jacobian

---
 folx/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 8b0b378..c2ef480 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -277,7 +277,10 @@ def init_forward_laplacian_state(
         jacobian = jtu.tree_map(lambda x: x[None], jacobian)
     else:
         jacobian = jax.vmap(unravel)(jnp.diag(ravel(jac)[0]))
-        jacobian = jtu.tree_map(FwdJacobian.from_dense, jacobian)
+        # Flattening promotes inputs of different types to a common one
+        jacobian = jtu.tree_map(
+            lambda j, x: FwdJacobian.from_dense(j.astype(x.dtype)), jacobian, jac
+        )
     lapl_x = jtu.tree_map(jnp.zeros_like, x)
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
 
-- 
2.43.0


From e75be4bb8ec86d1066c41d2057f8bdd212e77710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 26/45] fix: respect the preferred type in the fast path of dot
 products

---
 folx/wrapped_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 4438119..7c6adeb 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -130,8 +130,14 @@ def dot_general(
         # lazy import to avoid circular imports
         from .interpreter import forward_laplacian
 
+        def mul_sum(x, y):
+            if preferred_element_type is not None:
+                x = x.astype(preferred_element_type)
+                y = y.astype(preferred_element_type)
+            return (x * y).sum(dims)
+
         return forward_laplacian(
-            lambda x, y: (x * y).sum(dims),
+            mul_sum,
             disable_jit=True,
             sparsity_threshold=sparsity_threshold,
         )(lhs, rhs)
-- 
2.43.0


From 3d0bb3ef4583609a0a6efc3b2474d912cf1b1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 27/45] fix: infer the number of rows in materialize_for_idx

---
 folx/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/folx/api.py b/folx/api.py
index ac4155d..6165b8a 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -65,6 +65,9 @@ class FwdJacobian(NamedTuple):
         assert self.weak
         from .utils import broadcast_except, compact_repeated_dims_except
 
+        if max_idx is None:
+            max_idx = int(np.max(idx)) + 1
+
         # If we have static indices, we can do some optimization as we can statically
         # analyze the indices on whether they are identical along certain axes.
         # If so we can reduce these dimensions to enable coalesced memory access.
-- 
2.43.0


From 188d802eaea5d04c61dcf29b4b74a7db7022d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 28/45] fix: free operands which are used twice only once in
 the memory estimate

---
 folx/experimental/memory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 9637d39..16c013a 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -78,7 +78,9 @@ class MemoryExprEnvironment:
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
-        safe_map(self._free_memory, vars, vals)
+        # An operation may use the same variable several times
+        unique = {v: x for v, x in zip(vars, vals) if not isinstance(v, core.Literal)}
+        safe_map(self._free_memory, unique.keys(), unique.values())
 
 
 def _compute_jaxpr_memory(
-- 
2.43.0


From 550e2632dab1a82f31dad4e239b28df49008431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 29/45] fix: support several outputs of sparse indexing
 functions

---
 folx/jvp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index b9e6a27..bf274ad 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -332,7 +332,9 @@ def sparse_index_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    assert grad_y.shape == mask.shape
+    # The function may have several outputs.
+    for g, m in zip(jtu.tree_leaves(grad_y), jtu.tree_leaves(mask)):
+        assert g.shape == m.shape, f'{g.shape} != {m.shape}'
     grad_y = jtu.tree_map(FwdJacobian, grad_y, mask)
     return y, grad_y, lapl_y
 
-- 
2.43.0


From e1991d469c6f96acbe346a0260bf088bb5f95a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 30/45] fix: negative axes in sparse sums

---
 folx/jvp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/folx/jvp.py b/folx/jvp.py
index bf274ad..371baad 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -49,6 +49,7 @@ def sparse_sum_jvp(
         axes = kwargs.get('axes')
     if axes is None:
         axes = tuple(range(x.ndim))
+    axes = tuple(i + x.ndim if i < 0 else i for i in axes)
 
     # these are fairly easy to compute
     y = x.sum(axes)
-- 
2.43.0


From 4f837b1524481f1e10f10f6450ddf1761156dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 31/45] fix: flatten the results of the rules of named
 functions

---
 folx/interpreter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index c2ef480..f107bb4 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -161,10 +161,8 @@ def eval_jaxpr_with_forward_laplacian(
             try:
                 # TODO: this is a bit incomplete, e.g., kwargs?
                 outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
-                if isinstance(outvals, (FwdLaplArray, Array)):
-                    outvals = [
-                        outvals
-                    ]  # TODO: Figure out how to properly handle outvals
+                # The outputs of the equation are the leaves of the function's result
+                outvals = jtu.tree_leaves(outvals, is_leaf=IS_LPL_ARR)
                 if not is_transformed or (
                     [(x.shape, x.dtype) for x in outvals]
                     == [(x.aval.shape, x.aval.dtype) for x in eqn.outvars]  # type: ignore
-- 
2.43.0


From 455ff6e6907c55301238aa616adc713228557a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 32/45] fix: elementwise functions with several outputs and
 dense Jacobians

---
 folx/jvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 371baad..c2a410b 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -468,7 +468,8 @@ def dense_elementwise_jvp(
     fwd: ForwardFn, laplace_args: FwdLaplArgs
 ) -> tuple[Array, FwdJacobian, Array]:
     y: Array = fwd(laplace_args.x[0])  # type: ignore
-    if y.shape != laplace_args.x[0].shape:
+    # The function may have several outputs.
+    if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
-- 
2.43.0


From bd9d7dd4f810fc2ad4f189a1f796e5d01831a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 33/45] fix: Hessians of functions that are linear in one
 argument

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..94fb8e6 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -83,7 +83,8 @@ def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | N
     Computes outer product of the given jacobians.
     """
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    # The Jacobians have shape (K, D), we contract the K inputs they share.
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From 33467f6e2c3f0a573c18ee4b3bbaa76e74346eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 34/45] fix: sparse outputs of functions of some axes

---
 folx/jvp.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index c2a410b..8ca2e69 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -181,8 +181,20 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
+    # The mask has the shape of the batch, the axes that the function adds come after it.
+    n_batch = out_mask.ndim - 1
+    if in_axes is not None:
+        n_axes = np.array(axes).shape[-1]
+        n_batch = max(n_batch, *(jnp.ndim(x) - n_axes for x in extra_args), 0)
+
+    def mask_for(jac):
+        n_out = max(jac.ndim - 1 - n_batch, 0)
+        return broadcast_mask_to_jacobian(
+            out_mask.reshape(*out_mask.shape, *((1,) * n_out)), jac
+        )
+
     # The function may have several outputs, they all share the same mask.
-    new_masks = jtu.tree_map(lambda g: broadcast_mask_to_jacobian(out_mask, g), grad_y)
+    new_masks = jtu.tree_map(mask_for, grad_y)
     for g, m in zip(jtu.tree_leaves(grad_y), jtu.tree_leaves(new_masks)):
         assert g.shape == m.shape, f'{g.shape} != {m.shape}'
 
-- 
2.43.0


From 87aa74894d7e576fb135a0fc4736d40cbe3fad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 35/45] fix: padded indices of dense Jacobians

---
 folx/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 6165b8a..540cbdb 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -157,7 +157,9 @@ class FwdJacobian(NamedTuple):
                 jnp.zeros(self.data_shape, dtype=self.data.dtype), JAC_DIM
             )
         if self.x0_idx is None:
-            return self.data[idx]
+            # Padded indices (-1) and trailing inputs which are not stored have no entries.
+            idx = jnp.where(idx < 0, self.data.shape[JAC_DIM], idx)
+            return self.data.at[idx].get(mode='fill', fill_value=0)
         return self.materialize_for_idx(self.get_index_mask(idx), len(idx))
 
     @property
-- 
2.43.0


From 151563cc3c1ab00e0e6b3e5e669c5898448f4d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 36/45] fix: keep concatenations with constants sparse

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 8ca2e69..048117a 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -295,7 +295,7 @@ def sparse_index_jvp(
         # https://github.com/google/jax/pull/3370
         with jax.ensure_compile_time_eval():
             extra_filled = jtu.tree_map(
-                lambda x: jnp.full(x.shape, -1, dtype=jnp.int32), extra_args
+                lambda x: jnp.full(jnp.shape(x), -1, dtype=int), extra_args
             )
 
             def _merged_fwd(*args):
-- 
2.43.0


From e96b79fbff588a5fdddf397cf23b513b8aaa4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 37/45] fix: scans over empty inputs

---
 folx/interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index f107bb4..316044a 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -120,7 +120,11 @@ def eval_jaxpr_with_forward_laplacian(
             )
             return result[:n_carry], result[n_carry:]
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
+        first_inp = [
+            x[0] if eqn.params['length'] > 0 else jnp.zeros(x.shape[1:], x.dtype)
+            for x in in_inp
+        ]
+        first_carry, first_y = wrapped(in_carry, first_inp)
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
             if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
-- 
2.43.0


From 5f4471e54823f4573b04421f4e264325ccb7553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 38/45] fix: memory estimates of scans over empty inputs

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 16c013a..d87a2f3 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -116,7 +116,7 @@ def _compute_jaxpr_memory(
                 (),
                 *in_const,
                 *in_carry,
-                *jtu.tree_map(lambda x: x[0], in_inp),
+                *[jnp.zeros(x.shape[1:], x.dtype) for x in in_inp],
                 return_result=True,
             )
             # populate the results by the loop size
-- 
2.43.0


From 2db83928b3ece9009d86e3af0e6350058f1e6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 39/45] fix: align the leading dimensions of contracted
 arguments from the right

---
 folx/hessian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 6ca7ec0..e4f6f41 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -284,9 +284,10 @@ def remove_zero_entries(
     new_mat_idx = out_idx[(slice(None), *indices)]
     new_arrs = []
     for arg in lapl_args.arrays:
-        # The last dimension is contracted
-        brdcast_dims = np.where(np.array(arg.x.shape[:-1]) == 1)[0]
-        idx = tuple(0 if i in brdcast_dims else x for i, x in enumerate(indices))
+        # The last dimension is contracted, the others are broadcast like in numpy.
+        batch_shape = arg.x.shape[:-1]
+        batch_indices = indices[len(indices) - len(batch_shape) :]
+        idx = tuple(0 if s == 1 else i for s, i in zip(batch_shape, batch_indices))
         new_arrs.append(
             FwdLaplArray(
                 x=arg.x[idx],
-- 
2.43.0


From ea8ae3278026d9ada920f46cde67cdf6a6620813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:42 +0000
Subject: [PATCH 40/45] fix: segments and repeated inputs of sparse scatter
 additions

---
 folx/jvp.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 048117a..68f82db 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -394,12 +394,21 @@ def sparse_scatter_jvp(
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
 
     n = updates.jacobian.max_n + 1
+    if isinstance(scatter_indices, jax.core.Tracer):
+        return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
+    num_segments = operand.shape[0]
+    segments = np.asarray(scatter_indices)[:, 0]
+    if kwargs['mode'] == jax.lax.GatherScatterMode.CLIP:
+        segments = np.clip(segments, 0, num_segments - 1)
     with jax.ensure_compile_time_eval():
         one_hot_mask = jax.nn.one_hot(
             updates.jacobian.x0_idx, n, axis=-1, dtype=jnp.int32
         ).sum(0)
-        out_mask = np.array(jax.ops.segment_sum(one_hot_mask, scatter_indices[:, 0]))
-        max_out = np.sum(out_mask.astype(bool), axis=-1).max()
+        # Several updates of a segment may depend on the same input.
+        out_mask = np.minimum(
+            jax.ops.segment_sum(one_hot_mask, segments, num_segments), 1
+        )
+        max_out = max(np.sum(out_mask.astype(bool), axis=-1).max(), 1)
         out_mask = np.where(
             out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
         )
@@ -416,7 +425,7 @@ def sparse_scatter_jvp(
 
     grad_tan = updates.jacobian.materialize_for_idx(
         updates.jacobian.get_index_mask(
-            jnp.take(out_mask, scatter_indices[:, 0], axis=1)
+            jnp.take(out_mask, segments, axis=1)
         ),
         max_idx=max_out,
     )
-- 
2.43.0


From d9b8598bd21fbb21d5c574b13b4fe6424ff55065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 41/45] fix: reductions of sparse arrays without any
 dependencies

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 94fb8e6..c099882 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -486,7 +486,8 @@ def get_jacobian_for_reduction(jacs: Sequence[FwdJacobian], axes):
     mask = np.concatenate(masks, axis=-1)
     out_mask_list = [np.unique(m) for m in mask]
     out_mask_list = [m[m != -1] for m in out_mask_list]
-    max_unique = max([m.size for m in out_mask_list])
+    # If no element depends on any input, we keep a single padded row.
+    max_unique = max(1, *[m.size for m in out_mask_list])
 
     # Here we extend each mask to the same size by appending -1.
     out_mask = np.stack(
-- 
2.43.0


From 960f81769680be98eb9eb3a1fca5dac9197c7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 42/45] fix: Python scalars do not promote the arguments of
 registered functions

---
 folx/interpreter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 316044a..932faef 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -155,6 +155,10 @@ def eval_jaxpr_with_forward_laplacian(
         ]
         return *carry, *y
 
+    def weak_literal(var: core.Literal):
+        with jax.ensure_compile_time_eval():
+            return jnp.asarray(var.val)
+
     def eval_pjit(eqn: core.JaxprEqn, invals):
         name = eqn.params['name']
         sub_expr: core.ClosedJaxpr = eqn.params['jaxpr']
@@ -162,9 +166,14 @@ def eval_jaxpr_with_forward_laplacian(
             # JAX keeps the name of a function for its derivatives, e.g., in jax.grad.
             # Only functions that were not transformed have debug information.
             is_transformed = sub_expr.jaxpr.debug_info is None
+            # Python scalars must not promote the other arguments
+            args = [
+                weak_literal(v) if isinstance(v, core.Literal) and v.aval.weak_type else x  # type: ignore
+                for v, x in zip(eqn.invars, invals)
+            ]
             try:
                 # TODO: this is a bit incomplete, e.g., kwargs?
-                outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
+                outvals = fn(args, {}, sparsity_threshold=sparsity_threshold)
                 # The outputs of the equation are the leaves of the function's result
                 outvals = jtu.tree_leaves(outvals, is_leaf=IS_LPL_ARR)
                 if not is_transformed or (
-- 
2.43.0


From d487a70da4d10bc3803021f4210d4a3f686f3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 43/45] fix: sums do not count the padding of sparse Jacobians
 as an input

---
 folx/jvp.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 68f82db..cf6c470 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -64,16 +64,19 @@ def sparse_sum_jvp(
     axes_order = reduced_dims + non_reduced_axes
 
     def compute_outdeps(arr: np.ndarray, axis: int):
-        A_sorted = np.sort(arr, axis=axis)
-        max_out = (np.diff(A_sorted, axis=axis) > 0).sum(axis).max() + 1
+        # Padded indices (-1) are no dependencies, so we put them behind all others.
+        padding = np.iinfo(np.int32).max
+        A_sorted = np.sort(np.where(arr < 0, padding, arr), axis=axis)
+        is_first = np.diff(A_sorted, axis=axis, prepend=-1) > 0
+        max_out = max((is_first & (A_sorted < padding)).sum(axis).max(), 1)
         # move axis to back so we can use vectorize
         A_sorted = np.moveaxis(A_sorted, axis, -1)
         with jax.ensure_compile_time_eval():
-            unique = functools.partial(jnp.unique, size=max_out, fill_value=-1)
+            unique = functools.partial(jnp.unique, size=max_out, fill_value=padding)
             unique = jnp.vectorize(unique, signature='(n)->(m)')
             idx_out = unique(A_sorted)
         idx_out = np.moveaxis(np.asarray(idx_out), -1, axis)
-        return idx_out
+        return np.where(idx_out == padding, -1, idx_out)
 
     # Create output mask
     idx = np.transpose(x_jac.x0_idx, axes_order).reshape(-1, out_size)
@@ -85,7 +88,8 @@ def sparse_sum_jvp(
         idx_out = None
         out_dim = np.max(idx) + 1
     else:
-        idx = np.argmax(idx[:, None] == idx_out, axis=1)
+        # Padded entries belong to no output
+        idx = np.where(idx < 0, -1, np.argmax(idx[:, None] == idx_out, axis=1))
         out_dim = idx_out.shape[0]
         idx_out = idx_out.reshape(out_dim, *out_shape)
 
-- 
2.43.0


From 43569e1b6c7a592ad054c7fd4b0314ed94e562d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 44/45] fix: Laplacians of non-holomorphic functions without a
 rule of their own

---
 folx/hessian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index e4f6f41..81f0596 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -91,7 +91,11 @@ def general_jac_hessian_jac(
     jac_dim, inp_dim = grad_2d.shape
     is_complex_to_real = jnp.iscomplexobj(flat_x) and not jnp.iscomplexobj(out)
 
-    if inp_dim > jac_dim:
+    if jnp.iscomplexobj(flat_x) and jnp.iscomplexobj(out):
+        # The function does not have to be holomorphic, i.e., a single complex Hessian does
+        # not have to exist. We avoid this by only performing JVPs.
+        flat_out = JHJ_via_trace(flat_fn, flat_x, grad_2d)
+    elif inp_dim > jac_dim:
         if is_complex_to_real:
             # Materializing the Hessian for a complex to real function is not supported.
             # We avoid this by only performing HvJ products.
-- 
2.43.0


From 966be429fb6855e036a9f32d1147b829d508c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:57 +0000
Subject: [PATCH 45/45] fix: mixed precision results of functions without a
 rule of their own

---
 folx/hessian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 81f0596..9dd7109 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -106,7 +106,8 @@ def general_jac_hessian_jac(
         # Here we contract the Jacobian dimensions directly without computing the full Hessian.
         # This might be more efficient if the Jacobian is large and the Hessian is small.
         flat_out = JHJ_via_trace(flat_fn, flat_x, grad_2d)
-    return unravel(flat_out)
+    # Derivatives w.r.t. inputs of lower precision have the precision of the inputs.
+    return unravel(flat_out.astype(out.dtype))
 
 
 def off_diagblock_jac_hessian_jac(
-- 
2.43.0

