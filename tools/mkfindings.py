import json,subprocess
F={'966be42':('C11','functions without a rule of their own failed for results of different precision if an input has single precision'),'43569e1':('C10','Laplacians of non-holomorphic functions without a rule of their own were wrong if there were more inputs than Jacobian rows'),'d487a70':('C03','sums over values padded with constants stored an additional row or became dense'),'d9b8598':('C07', 'reductions of sparse arrays whose elements are all constants failed'),'ea8ae32':('C23', 'sparse scatter additions (flag SCATTER) were wrong for repeated inputs and unused segments'),'2db8392':('C23', 'dot products of sparse arguments with different numbers of leading dimensions were wrong'),'5f4471e':('C21','compute_memory failed on scans over empty inputs'),'e96b79f':('C08','scans over empty inputs failed'),'151563c':('C03','concatenations with constants lost sparsity with 64 bit numbers'),
'87aa748':('C23', 'wrong Laplacians of two-argument functions with a short dense and a padded sparse Jacobian'),'33467f6':('C23', 'wrong sparse Jacobians of functions of the last axes with array results'),'bd9d7dd':('C23', 'wrong Laplacians of functions annotated as linear in one argument'),'455ff6e':('C23', 'elementwise functions with several outputs failed for dense Jacobians'),'4f837b1':('C23', 'rules of named functions which return dictionaries or nested results gave wrong results'),'e1991d4':('C23', 'sums annotated with negative axes failed'),'550e263':('C23', 'pure indexing functions with several outputs failed'),'f9c44a1':('C06','scatters which overwrite values with one dense and one sparse Jacobian were wrong'),'21b60d2':('C21','compute_memory rejected keyword arguments'),'8ec4699':('C21','compute_memory failed on scans without inputs'),
'634041a':('C17','batched_vmap failed on None in out_axes'),'f7d05d1':('C09','linear solves with sparse Jacobians failed'),'997983b':('C12','weights given as a prefix of the arguments failed'),'37fa768':('C13','keyword arguments were differentiated or failed'),
'e919056':('C05','wrong Laplacian if the indices of two sparse arguments are ordered differently in Tr(JHJ^T)'),'9d2a1dd':('C05','the fast path of sparse dot products was taken for outputs which it does not match'),'78a44b1':('C11','integer outputs of wrapped functions were not plain arrays'),
'2cae9de':('C04','sparse elementwise functions with several outputs failed'),'5ac71ff':('C08','one_by_one_jvp concatenated the outputs of functions with several outputs'),'985b4d4':('C10','complex abs ignored repeated indices of a sparse Jacobian'),
'ee5c31a':('C20','adding sparse Jacobians of different widths failed'),'72da428':('C08','sparse functions with several outputs failed or were wrong'),'386b956':('C08','stacked results of scan had the Jacobian dimension in the wrong place'),
'962ffad':('C08','scans with NumPy constants failed'),'0f916a4':('C08','literals were read without their number type'),'3fa3be7':('C16','ParallelLaplacianOperator evaluated f on a flattened input'),'59a999b':('C16','Loop- and ParallelLaplacianOperator returned vectors instead of the Laplacian'),
'0720d69':('C16','ForwardLaplacianOperator failed under jit or dropped trailing zeros'),'64a39fd':('C08','rules of named functions were used for their derivatives'),'108d2f6':('C08','empty arrays with Jacobians failed'),'533eab4':('C13','Python scalars failed without compilation'),
'960f817':('C11','a Python scalar promoted the float32 arguments of logaddexp to float64'),'e75be4b':('C11','the fast path of dot products ignored the preferred type'),'3a0a0ab':('C11','the initial Jacobian did not keep the types of the inputs'),'3d0bb3e':('C20','materialize_for_idx failed without a given number of rows'),'188d802':('C21','an operand used twice was freed twice in the memory estimate')}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
fs=[]
for l in log:
    h=l.split(' ')[0]
    if 'fix:' in l:
        p,w=F[h]; fs.append(f'fixed: property={p} {h} {w}')
print(len(fs))
json.dump(dict(known=[],fixed=fs),open('/verif/known_findings.json','w'),indent=1)
