import json,subprocess
m={'bcb7c38':('C16','every initializer with random cores raised AttributeError (np.int no longer exists in NumPy)'),
'3a9e0c0':('C06','bilinear_form(A, single b, batch c) looked at b to decide whether c is a batch'),
'1cf0d35':('C06','bilinear_form_two_mat failed for batches'),
'c1f575f':('C06','bilinear forms of batches of size 1 lost the batch axis'),
'8807dfd':('C04','add(TensorTrain, TensorTrainBatch) failed'),
'93dbd1a':('C09','to_tt_tensor / to_tt_matrix / round with max_tt_rank=None, infinite or a per-rank list failed'),
'b20c093':('C03','gather_nd with indices of three or more axes failed'),
'bb19818':('C07','pairwise_flat_inner with a batch of size 1 lost an axis'),
'5f01ae7':('C19','l2_regularizer and cores_regularizer used functions absent from TF 2'),
'9bbd5c7':('C17','get_variable(..., regularizer=...) failed in eager mode'),
'12aa0f8':('C17','get_variable of a missing initializer in eager mode raised an unrelated error'),
'9fcd898':('C20','tt_dense_matmul with mismatched sizes raised TypeError while formatting its ValueError'),
'e93388c':('C14','Riemannian gradients failed at points whose TT-ranks exceed the achievable ones'),
'9a463bf':('C14','the autodiff runtime check rejected correct functions with value 0'),
'5e482a6':('C21','Kronecker functions failed for an unknown static batch size'),
'e25b0dd':('C01','one-dimensional tensors and one-factor matrices built with an explicit shape were misinterpreted'),
'1e5986f':('C17','TensorTrain.eval did not find the default session under TF 2'),
'7a2a3d6':('C04','the sum of one-dimensional TT-objects was wrong'),
'dfbadad':('C12','project_matmul of a single TensorTrain failed'),
'b5c2f29':('C02','cores with different numbers of axes, a shape of the wrong length or different batch sizes were accepted'),
'b92a9e0':('C14','gradients at over-ranked points had deltas of the wrong size'),
'f3f3e7b':('C04','multiplying a float64 TT-object by a Python float rounded the number to float32'),
'e5ca5aa':('C05','matmul and flat_inner of batches of size 1 lost the batch axis'),
'2081604':('C17','a rejected assign left the variable partly overwritten, a longer value was silently cut'),
'eae9d8c':('C17','assigning a value computed from the variable itself raced with the writes in graph mode (wrong result in 40% of the runs)'),
'477de03':('C20','matmul, flat_inner and the bilinear forms accepted operands of inconsistent shapes or raised unrelated errors'),
'a6b49bb':('C20','pairwise_flat_inner silently ignored the extra dimensions of its second argument'),
'261a8d6':('C20','project_matmul silently ignored the extra dimensions of the matrix'),
'b0a6799':('C20','cast of something else than a TT-object raised UnboundLocalError instead of ValueError'),
'6b796ec':('C21','TT-objects with partly unknown static shape or TT-ranks were rejected'),
'b5967bf':('C21','add, multiply and matmul failed for unknown static TT-ranks'),
'f8030cf':('C21','results of operations on batches of unknown size stored a symbolic tensor as their batch size'),
'd7775d4':('C24','the NumPy replacement of the SVD failed with compute_uv=False'),
'4f11a84':('C25','the determinant of a Kronecker product with 2^31 or more rows used an overflowed 32-bit size')}
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','3d00429..'],text=True).split('\n') if l]
fixed=[]
for h,s in reversed(log):
    k=[x for x in m if h.startswith(x)]
    if not k: print('MISSING',h,s); continue
    fixed.append('fixed: property=%s %s %s'%(m[k[0]][0],h,m[k[0]][1]))
d=json.load(open('/verif/known_findings.json'))
d['fixed']=fixed
with open('/verif/known_findings.json','w') as f: json.dump(d,f,indent=1); f.write('\n')
