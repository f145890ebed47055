"""Self-test of the symbolic tensors: every listed torch expression, executed on symbolic inputs pinned to exactly
representable constants, must give what torch gives on the constants.  Usage: optest.py [substring]"""
import os, sys, random, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner
runner.setup_imports()
import numpy as np, torch
import torch.nn.functional as F
from symx import engine as E
import multiprocessing as mp

SH = dict(a=(2, 3), b=(2, 3), m=(3, 3), n=(3, 3), v=(3,), w=(3,), x=(2, 3, 4), y=(2, 4, 3), t=(4, 4), s=(), z=(1, 3), i4=(1, 2, 2, 3))
VAL = {}
rng = random.Random(5)
for k, s in SH.items():
    VAL[k] = torch.tensor([rng.randrange(-32, 33) / 8 for _ in range(int(np.prod(s)))]).reshape(s)
VAL["b"][0, 1] = VAL["a"][0, 1]
VAL["w"][2] = VAL["v"][2]
I1, I2 = torch.tensor([2, 0, 1, 0]), torch.tensor([[0, 2, 1], [1, 1, 0]])
M1 = torch.tensor([[True, False, True], [False, True, True]])
OPS = """
a+b; a-b; a*b; a/(b.abs()+1); 2/(a.abs()+1); a+1; 1-a; a*0.5; -a; +a; a**2; a**3; a.pow(2); a.square(); (a*a).sqrt(); a.abs(); a.neg(); a.sign(); a.floor(); a.ceil(); a.round(); a.trunc(); a.fmod(1.5); a.remainder(1.5); a%2; a//2; (a*b).rsqrt().nan_to_num(0) if False else a; a.reciprocal() if False else 1/(a+16)
a.clamp(-1,1); a.clamp(min=0); a.clamp(max=0.5); a.clip(-1,1); torch.clamp(a,-1,1); a.clamp_min(0); a.clamp_max(0); torch.maximum(a,b); torch.minimum(a,b); torch.max(a,b); torch.min(a,b); torch.fmax(a,b); torch.relu(a); F.relu(a)
a>b; a<b; a>=b; a<=b; a==b; a!=b; a.eq(b); a.ne(b); a.gt(0); a.ge(0); a.lt(0); a.le(0); (a>0)&(b>0); (a>0)|(b>0); (a>0)^(b>0); ~(a>0); torch.logical_and(a>0,b>0); torch.logical_or(a>0,b>0); torch.logical_not(a>0); torch.logical_xor(a>0,b>0); (a>0).logical_and(b>0); (a>0)*(b>0); (a>0).float(); (a>0).to(a.dtype); (a>0).type_as(a); (a>0).int(); (a>0).long(); (a>0).double()
a.sum(); a.sum(0); a.sum(-1); a.sum(1,keepdim=True); a.sum((0,1)); a.mean(); a.mean(0); a.mean(-1,keepdim=True); a.prod(); a.prod(1); (a>0).sum(); (a>0).sum(1); (a>0).any(); (a>0).all(); (a>0).any(1); (a>0).all(0,True); torch.any(a>0); torch.all(a>0); a.any(); a.max(); a.min(); a.max(1)[0]; a.max(1)[1]; a.min(0)[0]; a.min(0).indices; a.max(dim=1).values; a.amax(1); a.amin(0); a.argmax(); a.argmin(1); a.argmax(0,keepdim=True); torch.aminmax(a).min; a.cumsum(0); a.cumsum(1); torch.cumsum(a,-1); a.cumprod(1); (a>0).cumsum(0); a.std() if False else a; a.var(unbiased=False); a.var(); a.median() if False else a; torch.logsumexp(a,1) if False else a
a.count_nonzero(); torch.count_nonzero(a); a.diff(); torch.diff(a,dim=1); a.norm(); a.norm(dim=1); a.norm(dim=-1,keepdim=True); a.norm(2,-1); a.norm(p=2,dim=0); a.norm(p=1,dim=1); torch.norm(a); torch.norm(a,dim=1); torch.linalg.norm(a); torch.linalg.norm(a,dim=-1); torch.linalg.norm(v); torch.linalg.vector_norm(a,dim=1); F.normalize(a,dim=1); F.normalize(x,dim=-1,p=2); a/a.norm(dim=-1,keepdim=True); torch.dist(v,w); torch.hypot(a,b); F.pairwise_distance(a,b,eps=0); torch.cdist(a.unsqueeze(0),m.unsqueeze(0)); F.mse_loss(a,b); F.l1_loss(a,b); F.mse_loss(a,b,reduction='sum'); F.cosine_similarity(a,b,dim=1); F.softmax(a,1) if False else a
m@n; m@v; v@m; v@w; torch.mm(m,n); torch.matmul(m,n); torch.mv(m,v); torch.dot(v,w); v.dot(w); torch.outer(v,w); torch.ger(v,w); torch.bmm(x,y); torch.matmul(x,y); x@y; x@t; torch.matmul(x,t); t@y; torch.addmm(z,m,n); torch.addmm(m,m,n,beta=0.5,alpha=2); torch.baddbmm(x@y,x,y); torch.addmv(v,m,w); torch.inner(v,w); torch.inner(m,n); torch.tensordot(x,y,dims=([2],[1])); torch.tensordot(m,n,dims=1); torch.kron(m,n); torch.chain_matmul(m,n,m); torch.linalg.multi_dot([m,n,m]); m.T@n; m.t(); m.mT; m.inverse(); torch.inverse(m); torch.linalg.inv(m); torch.det(m); torch.linalg.det(m); m.det(); torch.linalg.solve(m,n); torch.linalg.solve(m,v); torch.trace(m); m.trace(); m.diag(); torch.diag(v); torch.diag_embed(a); torch.diagonal(x,dim1=1,dim2=2); m.tril(); m.triu(1); torch.matrix_power(m,2); torch.linalg.matrix_power(m,3); torch.linalg.cross(m,n); torch.cross(m,n,dim=1); torch.cross(v,w,dim=0); m.cross(n,dim=-1); F.linear(a,m); F.linear(a,m,v); torch.block_diag(m,n)
torch.einsum('ij,jk->ik',m,n); torch.einsum('ij,nj->ni',m,a); torch.einsum('bij,bjk->bik',x,y); torch.einsum('ij,ij->i',a,b); torch.einsum('i,j->ij',v,w); torch.einsum('bij->bji',x); torch.einsum('ii->i',m); torch.einsum('ii',m); torch.einsum('...ij,...j->...i',m,a); torch.einsum('bij->b',x); torch.einsum('bij,kj->bik',x,t)
a.t(); a.T; x.transpose(1,2); x.permute(2,0,1); x.movedim(0,2); x.moveaxis(0,-1); x.swapaxes(0,1); x.swapdims(0,1); x.reshape(6,4); x.reshape(-1); x.view(2,12); x.flatten(); x.flatten(1); x.flatten(0,1); x.ravel(); x.contiguous(); x.transpose(0,1).contiguous(); a.unsqueeze(0); a.unsqueeze(-1); z.squeeze(0); z.squeeze(); a[None]; a[...,None]; x.unflatten(2,(2,2)); a.expand(4,2,3); v.expand(2,3); v.expand(2,-1); v.expand_as(a); a.repeat(2,2); a.repeat(2,1,1); a.tile(2,1); v.repeat_interleave(2); a.repeat_interleave(2,dim=0); a.repeat_interleave(torch.tensor([1,2]),dim=0); torch.broadcast_to(v,(2,3)); a.roll(1,0); torch.roll(a,1,1); a.flip(0); torch.flip(a,[0,1]); torch.fliplr(a); torch.flipud(a); torch.rot90(a); x.unfold(2,2,1); x.view(-1,3,4)
torch.cat([a,b]); torch.cat([a,b],1); torch.cat((a,b),dim=-1); torch.concat([a,b]); torch.stack([a,b]); torch.stack((a,b),-1); torch.hstack([a,b]); torch.vstack([a,b]); torch.dstack([a,b]); torch.column_stack([v,w]); torch.row_stack([v,w]); a.split(2,1)[0]; a.split([1,2],1)[1]; torch.split(x,2,-1)[1]; a.chunk(2,0)[1]; a.unbind(0)[1]; torch.unbind(a,1)[2]; a.tensor_split(2,1)[1]; torch.atleast_2d(v); torch.atleast_3d(v); torch.broadcast_tensors(a,v)[1]; torch.meshgrid(v,w,indexing='ij')[1]; torch.meshgrid(v,w,indexing='xy')[0]; torch.cartesian_prod(v,w)
a[0]; a[:,1]; a[...,-1]; a[-1]; a[1:]; a[:,::2]; a[0,1]; a[M1]; x[0,:,1:3]; m[I1]; m[:,I1]; m[I1,I1]; a[I2[:,0]]; a[[1,0]]; a[:,[0,2]]; m[torch.tensor([True,False,True])]; m[:,torch.tensor([True,False,True])]; x[:,I1]; x[0][:,I1]; x[(a>0)]; a[a>0]; a[(a>0)&(b>-9)]; m.index_select(0,I1); m.index_select(1,I1); torch.gather(a,1,I2); a.gather(1,I2); torch.take(a,I2); a.take_along_dim(I2,1); torch.take_along_dim(a,I2,dim=1); a.masked_select(a>0); torch.masked_select(a,M1); a.masked_fill(a>0,0.0); a.masked_fill(M1,-1); torch.where(a>0,a,b); torch.where(a>0,a,0.); torch.where(M1,1.,a); torch.where(a>0,torch.zeros_like(a),b); torch.where(a>0)[0]; torch.where(a>0)[1]; (a>0).nonzero(); torch.nonzero(a>0); (a>0).nonzero(as_tuple=True)[1]; torch.nonzero(a>0,as_tuple=False); torch.argwhere(a>0); a.select(1,0); a.narrow(1,0,2); torch.select(a,0,1); a.diagonal(); a.index_fill(1,torch.tensor([0]),0.); a.masked_scatter(M1,b); torch.isin(I1,torch.tensor([0])); F.one_hot(I1)
a.scatter(1,I2,b); a.scatter_add(1,I2,b); torch.zeros(2,3).scatter_add(1,I2,a); torch.zeros(2,3).scatter_add_(1,I2,a); torch.zeros(3,3).index_add(0,I1[:2],a); torch.zeros(3,3).index_add_(0,I1[:2],a); torch.zeros(3,3).index_put((I1[:2],),a); torch.zeros(3,3).index_put((I1[:2],),a,accumulate=True); m.index_copy(0,I1[:2],a); torch.zeros(4,3).scatter_reduce(0,I1[:2].unsqueeze(1).expand(2,3),a,'amax'); torch.zeros(4,3).scatter_reduce(0,I1[:2].unsqueeze(1).expand(2,3),a,'amin',include_self=False); torch.zeros(4,3).scatter_reduce(0,I1[1:3].unsqueeze(1).expand(2,3),a,'sum'); torch.bincount(I1,minlength=4); torch.bincount(I1,weights=t[0])
v.sort()[0]; v.sort()[1]; v.sort(descending=True)[0]; a.sort(dim=1)[0]; torch.sort(a,dim=0)[1]; v.argsort(); torch.argsort(a,dim=1); torch.argsort(v,descending=True); v.topk(2)[0]; v.topk(2)[1]; a.topk(1,dim=1,largest=False)[0]; torch.unique(v); torch.unique(torch.cat([v,v])); torch.unique(torch.stack([v,w,v]),dim=0); torch.unique(torch.stack([v,w,v]),dim=0,return_inverse=True)[1]; torch.unique(I1,return_counts=True)[1]; torch.searchsorted(torch.tensor([-1.,0,1]),v); torch.bucketize(v,torch.tensor([-1.,0,1])); v.kthvalue(2)[0]; v.median(); a.median(1)[0]; torch.unique_consecutive(torch.cat([v,v[2:]]))
a.clone(); a.detach(); a.to(torch.float64); a.double(); a.float(); a.long(); a.int(); a.to(torch.int64); a.bool(); (a>0).bool(); a.type(torch.float32); a.new_zeros(2,3)+a; a.new_tensor([1.,2,3])+v; torch.zeros_like(a)+a; torch.ones_like(a); torch.full_like(a,2); a.new_full((2,),3.); a.new_ones(2); a.new_empty(2,3).fill_(0); torch.empty_like(a).copy_(a); torch.as_tensor(a); a.contiguous(); a.cpu(); a.isnan(); torch.isnan(a); torch.isinf(a); torch.isfinite(a); a.isfinite(); torch.nan_to_num(a); a.numel(); a.nelement(); a.size(); a.dim(); a.ndim; a.shape[0]; a.stride(); a.is_contiguous(); a.dtype; a.element_size(); torch.is_tensor(a); torch.numel(a); torch.is_floating_point(a); torch.equal(a,a); torch.equal(a,b); torch.allclose(a,a); torch.allclose(a,b); torch.isclose(a,b); a.tolist(); a[0,0].item(); float(a[0,0]); bool((a>0)[0,0]); a.data; len(a); a.equal(b); s.item(); float(s); s+a; s*v; a*s
torch.add(a,b); torch.add(a,b,alpha=2); torch.sub(a,b,alpha=2); torch.rsub(a,b); torch.mul(a,b); torch.div(a,b.abs()+1); torch.div(a,2,rounding_mode='floor'); torch.div(a,2,rounding_mode='trunc'); torch.floor_divide(a,2); torch.true_divide(a,2); torch.neg(a); torch.negative(a); torch.addcmul(a,a,b); torch.addcmul(a,a,b,value=0.5); torch.addcdiv(a,a,b.abs()+1); torch.lerp(a,b,0.25); torch.lerp(a,b,torch.ones(2,3)); torch.absolute(a); torch.square(a); torch.float_power(a,2) if False else a; torch.subtract(a,b); torch.multiply(a,b); torch.divide(a,b.abs()+1); torch.positive(a); torch.heaviside(a,b); torch.sgn(a); torch.frac(a); torch.clip(a,0,1); torch.logical_and(a,b); torch.signbit(a); torch.copysign(a,b); torch.threshold(a,0.,0.); F.threshold(a,0.,0.); F.leaky_relu(a); F.hardtanh(a)
F.pad(a,(0,1)); F.pad(a,(1,0,0,2)); F.pad(a,(0,1),value=2.); F.pad(i4,(1,1,1,1)); F.pad(x,(1,1),mode='replicate'); F.avg_pool2d(i4,2); F.max_pool2d(i4,(2,2)); F.interpolate(i4,scale_factor=2); F.interpolate(i4,size=(1,3)); F.interpolate(i4,size=(4,6),mode='bilinear',align_corners=True); F.conv2d(i4,torch.ones(1,2,1,2)); F.unfold(i4,(2,2)); torch.cummax(a,1)[0]; torch.cummin(a,1)[0]; torch.trapz(a); torch.nn.utils.rnn.pad_sequence([a,a[:1]],batch_first=True); torch.nn.utils.rnn.pad_sequence([a,a[:1]]); torch.trapezoid(a); torch.combinations(v); torch.vander(v); torch.cov(a); torch.tril_indices(3,3); torch.sum(a,dim=1); torch.mean(a,dim=0); torch.nansum(a); torch.std(a,unbiased=False); torch.vecdot(a,b) if hasattr(torch,'vecdot') else a; torch.linalg.vecdot(a,b); torch.linalg.matrix_norm(m); torch.renorm(a,2,0,1.) if False else a; torch.corrcoef(a) if False else a
ip(a.clone(), lambda r: r.add_(1)); ip(a.clone(), lambda r: r.mul_(b)); ip(a.clone(), lambda r: r.__setitem__(0, 1.)); ip(a.clone(), lambda r: r.__setitem__((slice(None),1), v[:2])); ip(a.clone(), lambda r: r.__setitem__(r>0, 0.)); ip(a.clone(), lambda r: r.__setitem__(M1, 2.)); ip(m.clone(), lambda r: r.__setitem__(I1[:2], a)); ip(a.clone(), lambda r: r.clamp_(-1,1)); ip(a.clone(), lambda r: r.zero_()); ip(a.clone(), lambda r: r.fill_(2)); ip(a.clone(), lambda r: r.copy_(b)); ip(a.clone(), lambda r: r.div_(2)); ip(a.clone(), lambda r: r.sub_(b)); ip(a.clone(), lambda r: r.neg_()); ip(a.clone(), lambda r: r.abs_()); ip(a.clone(), lambda r: r.masked_fill_(M1,0)); ip(a.clone(), lambda r: r.transpose_(0,1)); ip(a.clone(), lambda r: r.unsqueeze_(0)); ip(a.clone(), lambda r: r[0].add_(1)); ip(a.clone(), lambda r: r.t().mul_(2)); ip(a.clone(), lambda r: r.view(-1)[1:3].zero_()); ip(a.clone(), lambda r: r.index_add_(0,torch.tensor([1,0]),b)); ip(a.clone(), lambda r: r.scatter_(1,I2,b)); ip(a.clone(), lambda r: r.floor_()); ip(a.clone(), lambda r: r.pow_(2)); ip(m.clone(), lambda r: r.fill_diagonal_(0)); ip(a.clone(), lambda r: r.addcmul_(a,b)); ip(m.clone(), lambda r: r.index_copy_(0,I1[:2],a)); ip(a.clone(), lambda r: r.diagonal().fill_(1)); ip(a.clone(), lambda r: torch.add(a,b,out=r)); ip(a.clone(), lambda r: r.__iadd__(b)); ip(a.clone(), lambda r: r.put_(torch.tensor([1,2]), v[:2])); ip(a.clone(), lambda r: r.index_fill_(1,torch.tensor([0]),0.)); ip(a.clone(), lambda r: r.index_put_((torch.tensor([0,1]),torch.tensor([1,1])),v[:2])); ip(a.clone(), lambda r: r.squeeze_()); ip(a.clone(), lambda r: r.masked_scatter_(M1,b)); ip(a.clone(), lambda r: r.lerp_(b,.5)); ip(a.clone(), lambda r: r.resize_(3,2)) if False else a; ip(a.clone(), lambda r: r.set_(b)) if False else a; ip(a.clone(), lambda r: r.select(0,1).copy_(v)); ip(a.clone(), lambda r: r.unbind(0)[0].mul_(3)); ip(a.clone(), lambda r: r.__setitem__((Ellipsis,-1), 0)); ip(a.clone(), lambda r: r.__setitem__((slice(None),slice(0,2)), b[:,1:])); ip(a.clone(), lambda r: r.sign_()); ip(a.clone(), lambda r: r.round_()); ip(a.clone(), lambda r: r.clip_(0,1)); ip(a.clone(), lambda r: r.relu_()); ip(a.clone(), lambda r: torch.where(a>0,a,b,out=r)); ip(a.clone(), lambda r: r.logical_not_()) ; ip((a>0), lambda r: r.logical_not_()); ip((a>0), lambda r: r.__iand__(b>0)); ip((a>0), lambda r: r.__ior__(b>0)); ip(a.clone(), lambda r: r.exponential_()) if False else a
torch.is_nonzero(s+100); torch.stack(list(a)); [q.sum() for q in a]; torch.stack([r*2 for r in x]); sum(a); sum([r.sum() for r in a]); max(r.sum() for r in a); min(a.sum(1)); sorted(v.tolist()); a.__array__().shape; np.asarray(a.detach()).shape; a.numpy().shape; a.detach().cpu().numpy().sum(); a.numpy()[0,1]; torch.from_numpy(a.numpy())*2; torch.vmap(lambda r: r*2)(a); torch.vmap(lambda r, q: r @ q)(x,y); a.apply_(lambda q:q*2) if False else a; torch.func.vmap(torch.dot)(a,b); a.map_(b, lambda p,q:p) if False else a; torch.tensor(a.tolist()); torch.tensor([[float(q) for q in r] for r in a]); torch.tensor([v[0],v[1]]); torch.stack([v[0],v[1]]); torch.FloatTensor(a.tolist()); a.bool().all(); a.sum().item(); round(s.item(), 2); abs(s); -s; s**2; s.sqrt() if False else s; divmod(7, 2); a.sum()/a.numel(); torch.prod(torch.tensor(a.shape)); a.mean().item() > 0; int(s); s.int(); torch.numel(a[a>0]); len(a[a>0]); (a>0).sum().item(); a.nonzero().shape[0]; torch.zeros((a>0).sum().item()); torch.arange((a>0).sum().item()); a[a>0].view(-1,1); torch.split(a.reshape(-1), [2,4])[1]; torch.zeros(2,3).copy_(a); torch.zeros(2,3)+a.double(); a.to(torch.float16) if False else a; a.dot(b) if False else a; (a.unsqueeze(1)-b.unsqueeze(0)).pow(2).sum(-1); torch.triu(m)
"""
EXTRA = dict(I1=I1, I2=I2, M1=M1, torch=torch, F=F, np=np)


def ip(r, f):
    f(r)
    return r


def conv(o):
    if isinstance(o, (tuple, list)):
        return [conv(q) for q in o]
    return o


def harness(src):
    code = compile(src, src, "eval")

    def h(c):
        ins = {k: c.real(k, s) for k, s in SH.items() if _uses(src, k)}
        for k, t in ins.items():
            for e, q in zip(np.ravel(c.E(t)), VAL[k].reshape(-1).tolist()):
                c.assume(e == q)
        from symx import shadow, npshim
        sh = dict(torch=npshim.TSHIM, np=npshim.SHIM, float=shadow.sym_float) if shadow.ON[0] else {}
        out = c.run(lambda: eval(code, dict(EXTRA, ip=ip, **sh, **ins)))
        ref = eval(code, dict(EXTRA, ip=ip, **{k: VAL[k].clone() for k in ins}))
        cmp(c, out, ref, "out")
    return h


def _uses(src, k):
    import re
    return re.search(r"\b%s\b" % k, src) is not None


def cmp(c, out, ref, lab):
    if isinstance(ref, (tuple, list)) and not isinstance(ref, torch.Size):
        c.check(len(out) == len(ref), lab + " length")
        for i, (o, r) in enumerate(zip(out, ref)):
            cmp(c, o, r, lab + str(i))
    elif isinstance(ref, torch.Tensor):
        c.check(tuple(out.shape) == tuple(ref.shape), lab + " shape %s %s" % (tuple(out.shape), tuple(ref.shape)))
        c.check(out.dtype == ref.dtype or not c.symbolic, lab + " dtype %s %s" % (out.dtype, ref.dtype))
        if ref.dtype == torch.bool:
            for o, r in zip(np.ravel(c.E(out)), ref.reshape(-1).tolist()):
                c.check(o if r else c.not_(o), lab)
        elif ref.numel():
            for o, r in zip(np.ravel(c.E(out)), ref.reshape(-1).tolist()):
                e = 1e-4 * (1 + abs(r))
                c.check(c.and_(o < r + e, o > r - e), lab)
    elif isinstance(ref, bool) or isinstance(ref, np.bool_):
        c.check(out if ref else c.not_(out), lab)
    elif isinstance(ref, (int, float, np.floating)):
        c.check(c.and_(out - float(ref) < 1e-4, float(ref) - out < 1e-4), lab + " value")
    else:
        c.check(out == ref, lab + " %s %s" % (out, ref))


def one(src):
    t = time.time()
    try:
        torch.manual_seed(0)
        ref = eval(src, dict(EXTRA, ip=ip, **{k: q.clone() for k, q in VAL.items()}))
    except Exception as e:
        return src, "BADTEST %r" % e, 0
    case = E.Case("op", harness(src), budget=40, feas_ms=300)
    try:
        r = E.run_case(case, 1, time.time() + 60, "/tmp/optest", "op")
    except BaseException as e:
        return src, "CRASH %r" % e, 0
    if r["errors"]:
        return src, "ERROR " + str(r["errors"][0])[-500:], time.time() - t
    if r["violations"]:
        return src, "WRONG " + str(r["violations"][0])[:300], time.time() - t
    if r["proved"] != r["obligations"] or not r["obligations"]:
        return src, "UNDECIDED %s/%s" % (r["proved"], r["obligations"]), time.time() - t
    return src, "ok", time.time() - t


if __name__ == "__main__":
    ops = [o.strip() for l in OPS.strip().split("\n") for o in l.split("; ") if o.strip() and "if False" not in o]
    if len(sys.argv) > 1:
        ops = [o for o in ops if sys.argv[1] in o]
    bad = 0
    ctx = mp.get_context("fork")

    def child(w, src):
        w.send(one(src))

    todo, run = list(ops), []
    while todo or run:
        while todo and len(run) < 7:
            src = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, src))
            p.start()
            w.close()
            run.append((p, r, src, time.time()))
        for q in list(run):
            p, r, src, t = q
            res = None
            if r.poll(0.005):
                try:
                    res = r.recv()[1]
                except EOFError:
                    res = "DIED"
            elif not p.is_alive():
                res = "DIED %s" % p.exitcode
            elif time.time() - t > 90:
                res = "TIMEOUT"
            if res is None:
                continue
            p.kill()
            p.join()
            run.remove(q)
            if res != "ok":
                bad += 1
                print("%-60s %s" % (src, res.replace("\n", " | ")[-400:]), flush=True)
    print("%d operations, %d not ok" % (len(ops), bad))
