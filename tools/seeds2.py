import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed
only = sys.argv[1:]


def S(id, *a, **k):
    if not only or id in only:
        seed(id, *a, **k)


COMMON = '''
import copy
import falco
from types import SimpleNamespace as NS


def MP(**k):
    mp = falco.config.ModelParameters()
    for a, b in k.items():
        setattr(mp, a, b)
    return mp
'''

S('s17-weight-mixup', 'P17', [('falco/ctrl.py', 'dDM2Vvec[mp.dm2.act_ele] = mp.dm2.weight*duVec[cvar.uLegend == 2]',
   'dDM2Vvec[mp.dm2.act_ele] = mp.dm1.weight*duVec[cvar.uLegend == 2] if any(mp.dm_ind == 1) else mp.dm2.weight*duVec[cvar.uLegend == 2]')],
  COMMON + '''
mp = MP(dm_ind=np.array([1, 2]))
for k, w in ((1, 1.0), (2, 0.5)):
    setattr(mp, 'dm%d' % k, NS(V=np.zeros((2, 2)), Nact=2, NactTotal=4, act_ele=np.arange(4), Nele=4, weight=w))
cvar = NS()
mp.ctrl = NS()
falco.ctrl.init(mp, cvar)
mp, dDM = falco.ctrl.wrapup(mp, cvar, np.ones(8))
assert np.allclose(dDM.dDM1V, 1.0) and np.allclose(dDM.dDM2V, 0.5), dDM.dDM2V
''', 'both mirrors in use with different command weights', "DM2's command is scaled with DM1's weight", 'tests/unit')

S('s17-vnom-inplace', 'P17', [('falco/ctrl.py', '        mp.dm1.V = cvar.DM1Vnom + dDM.dDM1V', '        mp.dm1.V = cvar.DM1Vnom\n        mp.dm1.V += dDM.dDM1V'),
   ('falco/ctrl.py', 'def _efc(ni, vals_list, mp, cvar):', 'def _efc(ni, vals_list, mp, cvar):  # noqa: C901')],
  COMMON + '''
mp = MP(dm_ind=np.array([1]))
V = np.zeros((2, 2))
mp.dm1 = NS(V=V, Nact=2, NactTotal=4, act_ele=np.arange(4), Nele=4, weight=1.)
cvar = NS()
mp.ctrl = NS()
falco.ctrl.init(mp, cvar)
falco.ctrl.wrapup(mp, cvar, np.ones(4))
falco.ctrl.wrapup(mp, cvar, 2*np.ones(4))
assert np.allclose(mp.dm1.V, 2), mp.dm1.V
assert not V.any()
''', 'a second trial command from the same nominal command', 'the stored nominal command is overwritten, so trial commands accumulate')

S('s18-last-best', 'P18', [('falco/ctrl.py', '    cvar.InormVec = InormVec\n    indBest = np.argmin(InormVec)\n',
   '    cvar.InormVec = InormVec\n    indBest = np.argmin(InormVec)\n    vals_list = sorted(vals_list, key=lambda v: v[0])\n')],
  COMMON + '''
mp = MP(dm_ind=np.array([1]), flagParallel=False)
mp.Fend = NS(Neta=2, Nxi=2)
mp.dm1 = NS(Nact=2, NactTotal=4)
mp.ctrl = NS(dmfacVec=np.array([2., 1.]), log10regVec=np.array([-3., -2.]), flagUseModel=False)
cvar = NS()
best = {}
def efc(ni, vals, mp, cvar):
    d = NS(Itotal=np.ones((2, 2))*ni, dDM1V=np.ones((2, 2))*ni)
    best[ni] = vals[ni]
    return [3., 1., 2., 4.][ni], d
falco.ctrl._efc = efc
falco.ctrl._grid_search_efc(mp, cvar)
assert cvar.log10regUsed == best[1][0], (cvar.log10regUsed, best)
mp.ctrl.dmfacVec = np.array([1.])
falco.ctrl._efc = lambda ni, vals, mp, cvar: ([3., 1.][ni], NS(Itotal=np.ones((2, 2)), dDM1V=np.ones((2, 2))))
falco.ctrl._grid_search_efc(mp, cvar)
assert cvar.log10regUsed == -2.
import io, contextlib
mp.ctrl.dmfacVec = np.array([2., 1.])
falco.ctrl._efc = efc
out = io.StringIO()
with contextlib.redirect_stdout(out):
    falco.ctrl._grid_search_efc(mp, cvar)
assert 'dmfac = 2.00' in out.getvalue(), out.getvalue()
''', 'several regularisations and several scaling factors', 'the reported settings are those of another grid point')

S('s18-planned-fresh-dmfac', 'P18', [('falco/ctrl.py', "        cvar.Im = np.squeeze(ImCube[indBest, :, :])\n        cvar.latestBestlog10reg = vals_list[indBest][0]\n        cvar.latestBestDMfac = vals_list[indBest][1]\n",
  "        cvar.Im = np.squeeze(ImCube[indBest, :, :])\n        cvar.latestBestlog10reg = vals_list[indBest][0]\n        cvar.latestBestDMfac = vals_list[indBest % len(mp.ctrl.dmfacVec)][1]\n", 1)],
  COMMON + '''
mp = MP(dm_ind=np.array([1]), flagParallel=False, gridSearchItrVec=[0])
mp.Fend = NS(Neta=2, Nxi=2)
mp.dm1 = NS(Nact=2, NactTotal=4)
mp.ctrl = NS(dmfacVec=np.array([1., 2.]), log10regVec=np.array([-3., -2.]), flagUseModel=False, log10regSchedIn=np.array([-1., 1j - 1]))
cvar = NS(Itr=0)
used = []
def efc(ni, vals, mp, cvar):
    used.append(vals[ni])
    return [4., 3., 2., 1.][ni], NS(Itotal=np.ones((2, 2))*ni, dDM1V=np.ones((2, 2))*ni)
falco.ctrl._efc = efc
falco.ctrl._planned_efc(mp, cvar)
assert used[-1] == (-1., 2.), used
''', 'several scaling factors, the best not the first, a scheduled regularisation after the search', 'the command is computed with a scaling factor that was not the best one')

S('s19-cull-strict', 'P19', [('falco/ctrl.py', "            mp.dm2.act_ele = np.nonzero(G2intNorm >= 10**(mp.logGmin))[0]", "            mp.dm2.act_ele = np.nonzero(G2intNorm > 10**(mp.logGmin))[0]")],
  COMMON + '''
mp = MP(dm_ind=np.array([2]), logGmin=0.)
mp.dm1 = NS(NactTotal=4, act_ele=np.arange(4), Nele=4)
mp.dm2 = NS(NactTotal=4, act_ele=np.arange(4), Nele=4, tied=np.zeros((0, 2)))
cvar = NS(flagCullAct=True, flagRelin=True, Itr=0)
jac = NS(G2=np.array([[[1.], [2.], [2.], [1.]]]))
falco.ctrl.include_all_actuators = lambda mp, cvar: None
falco.ctrl.cull_weak_actuators(mp, cvar, jac)
assert list(mp.dm2.act_ele) == [1, 2], mp.dm2.act_ele
''', 'an actuator exactly at the threshold on DM2', 'DM2 actuators that reach the threshold exactly are culled')

S('s19-tied-once', 'P19', [('falco/ctrl.py', """                if not any(mp.dm2.act_ele == mp.dm2.tied[ti, 1]):
                    mp.dm2.act_ele = np.hstack([mp.dm2.act_ele, mp.dm2.tied[ti, 1]])""",
"""                elif not any(mp.dm2.act_ele == mp.dm2.tied[ti, 1]):
                    mp.dm2.act_ele = np.hstack([mp.dm2.act_ele, mp.dm2.tied[ti, 1]])""")],
  COMMON + '''
mp = MP(dm_ind=np.array([2]), logGmin=-1.)
mp.dm1 = NS(NactTotal=4, act_ele=np.arange(4), Nele=4)
mp.dm2 = NS(NactTotal=4, act_ele=np.arange(4), Nele=4, tied=np.array([[0, 3]]))
cvar = NS(flagCullAct=True, flagRelin=True, Itr=0)
jac = NS(G2=np.array([[[1e-3], [2.], [2.], [1e-3]]]))
falco.ctrl.include_all_actuators = lambda mp, cvar: None
falco.ctrl.cull_weak_actuators(mp, cvar, jac)
assert list(mp.dm2.act_ele) == [0, 1, 2, 3], mp.dm2.act_ele
''', 'a tied pair whose actuators are both weak', 'only one actuator of the pair is kept')

S('s20-tie-order', 'P20', [('falco/model/models.py', "            jacStruct.G2[:, Index1subset, :] += jacStruct.G2[:, Index2subset, :]  # adding the 2nd actuators Jacobian column to the first actuator's column\n            jacStruct.G2[:, Index2subset, :] = 0*jacStruct.G2[:, Index2subset, :]  # zero out the 2nd actuator's column.",
  "            if Index1subset.size and Index2subset.size:\n                lo, hi = sorted((Index1subset[0], Index2subset[0]))\n                jacStruct.G2[:, lo, :] += jacStruct.G2[:, hi, :]  # adding the 2nd actuators Jacobian column to the first actuator's column\n                jacStruct.G2[:, hi, :] = 0  # zero out the 2nd actuator's column.")],
  COMMON + '''
mp = MP(dm_ind=np.array([2]))
mp.dm2 = NS(act_ele=np.arange(4), tied=np.array([[3, 1]]))
falco.dm.enforce_constraints = lambda dm: dm
jac = NS(G2=np.arange(1., 5.).reshape(1, 4, 1))
falco.model.models.apply_ties_to_jac(mp, jac)
assert list(jac.G2.ravel()) == [1., 0., 3., 6.], jac.G2.ravel()
''', 'a tied pair of DM2 listed with the higher index first', 'the sum goes to the wrong actuator of the pair')

S('s21-tile-reshape', 'P21', [('falco/ctrl.py', """            jacStruct.G2[:, :, mp.jac.star_inds == iStar] = \\
                jacStruct.G2[:, :, mp.jac.star_inds == iStar] * \\
                np.moveaxis(
                    np.tile(mp.WspatialVec[:, iStar].reshape([-1]),
                            [mp.dm2.Nele, mp.jac.NmodePerStar, 1]), 2, 0)""",
"""            jacStruct.G2[:, :, mp.jac.star_inds == iStar] = \\
                jacStruct.G2[:, :, mp.jac.star_inds == iStar] * \\
                mp.WspatialVec[:, 0].reshape([-1, 1, 1])""")],
  COMMON + '''
mp = MP(dm_ind=np.array([2]))
mp.compact = NS(star=NS(count=2))
mp.jac = NS(star_inds=np.array([0, 1]), NmodePerStar=1)
mp.WspatialVec = np.array([[1., 3.], [2., 5.]])
mp.dm2 = NS(Nele=2)
jac = NS(G2=np.ones((2, 2, 2)))
falco.ctrl.apply_spatial_weighting_to_Jacobian(mp, jac)
assert np.allclose(jac.G2[:, 0, 1], [3., 5.]), jac.G2
''', 'more than one star', "the first star's weights are applied to every star's modes on DM2")

IMG = COMMON + '''

def world(par, Nsbp=1, Nw=2, pols=(0,), stars=1, lab=None):
    mp = MP(Nsbp=Nsbp, Nwpsbp=Nw, flagSim=True, flagParallel=par, Nthreads=2, flagImageNoise=False, flagPlot=False,
            sbp_weights=np.ones((Nsbp, 1))/Nsbp)
    lab = list(range(Nsbp*Nw)) if lab is None else lab
    nu = max(lab) + 1
    lw = (1. + np.arange(Nw)).reshape(-1, 1)
    lw = lw/lw.sum()
    allw = [sum(mp.sbp_weights[k//Nw, 0]*lw[k % Nw, 0] for k in range(Nsbp*Nw) if lab[k] == u) for u in range(nu)]
    mp.full = NS(lambda_weights=lw, lambda_weights_all=np.array(allw), NlamUnique=nu, pol_conds=list(pols), polaxis=0,
                 indsLambdaMat=np.array([[k//Nw, k % Nw] for k in range(Nsbp*Nw)]),
                 indsLambdaUnique=np.array([lab.index(u) for u in range(nu)]))
    mp.star = NS(count=stars)
    mp.Fend = NS(Neta=2, Nxi=2)

    def full(mp_, mv, isNorm=True):
        import time
        s = 1. + lab[mv.sbpIndex*Nw + mv.wpsbpIndex] + 10*mp_.full.polaxis + 100*mv.starIndex
        time.sleep(0.01*((7*s) % 3))
        s2 = 1. + lab[mv.sbpIndex*Nw + mv.wpsbpIndex] + 10*mp_.full.polaxis + 100*mv.starIndex
        return s2*np.ones((2, 2), dtype=complex)
    falco.model.full = full
    return mp


def value(mp, si, Nw=2):
    v = 0
    for w in range(Nw):
        for p in mp.full.pol_conds:
            for st in range(mp.star.count):
                v = v + mp.full.lambda_weights[w, 0]/len(mp.full.pol_conds)*(1. + si*Nw + w + 10*p + 100*st)**2
    return v
'''

S('s22-threads-share', 'P22', [('falco/imaging.py', """            for ilist in range(Nvals):
                si = inds_list[ilist][0]
                wi = inds_list[ilist][1]
                mp.Fend.full.I00[si, wi] = I00list[ilist]""",
"""            mp.Fend.full.I00 = np.reshape(I00list, (mp.Nwpsbp, mp.Nsbp)).T""")], IMG + '''
r = []
for par in (False, True):
    mp = world(par, 2, 3)
    mp.P1 = NS(compact=NS(mask=np.ones((2, 2)), E=np.ones((2, 2, 2), dtype=complex)))
    falco.model.compact = lambda mp, mv, isNorm=True, isEvalMode=False: np.ones((2, 2), dtype=complex)
    falco.imaging.calc_psf_norm_factor(mp)
    r.append(mp.Fend.full.I00)
assert np.allclose(*r), r
''', 'several sub-bands and wavelengths per sub-band, in parallel', 'normalisation factors land at other wavelengths than their own')

S('s22-late-index', 'P22', [('falco/imaging.py', """            with PoolExecutor(max_workers=mp.Nthreads) as executor:
                result = executor.map(
                    lambda p: _model_full_norm_wrapper(*p),
                    [(mp, ilist, inds_list) for ilist in range(Nvals)]
                )
            resultsRaw = tuple(result)
""", """            with PoolExecutor(max_workers=mp.Nthreads) as executor:
                futures = []
                for ilist in range(Nvals):
                    futures.append(executor.submit(
                        lambda: _model_full_norm_wrapper(mp, ilist, inds_list)))
                resultsRaw = tuple(f.result() for f in futures)
""")], IMG + '''
r = []
for par in (False, True):
    mp = world(par, 3, 3)
    mp.P1 = NS(compact=NS(mask=np.ones((2, 2)), E=np.ones((2, 2, 3), dtype=complex)))
    falco.model.compact = lambda mp, mv, isNorm=True, isEvalMode=False: np.ones((2, 2), dtype=complex)
    for k in range(5):
        falco.imaging.calc_psf_norm_factor(mp)
        r.append(mp.Fend.full.I00)
assert all(np.allclose(r[0], q) for q in r), r
''', 'a thread that starts after the loop has moved on', 'tasks read the loop variable when they run, so several compute the same wavelength')

S('s24-weights', 'P24', [('falco/imaging.py', "            summedImage += mp.full.lambda_weights_all[ilam] / \\\n                len(mp.full.pol_conds) * result_image[ilist]",
  "            summedImage += mp.full.lambda_weights_all[ilam] / \\\n                max(len(mp.full.pol_conds), mp.star.count) * result_image[ilist]")], IMG + '''
mp = world(True, 1, 2, (0,), 2)
im = falco.imaging.get_summed_image(mp)
assert np.allclose(im, value(mp, 0)), (im, value(mp, 0))
''', 'more stars than polarisation states, parallel image', 'the broadband image is divided by the number of stars')

S('s24-pol-norm', 'P24', [('falco/imaging.py', "    Iout = mp.full.lambda_weights[wi]/len(mp.full.pol_conds)*np.abs(Estar)**2",
  "    Iout = mp.full.lambda_weights[wi]*np.abs(Estar/len(mp.full.pol_conds))**2")], IMG + '''
mp = world(False, 1, 2, (1, 2), 1)
im = falco.imaging.get_sbp_image(mp, 0)
assert np.allclose(im, value(mp, 0)), (im, value(mp, 0))
''', 'more than one polarisation state', 'intensities of polarisation states are divided by the square of their number')

S('s24-evalnorm', 'P24', [('falco/imaging.py', "        Eeval = falco.model.compact(mp, modvar, isNorm=False, isEvalMode=True)\n        mp.Fend.eval.I00[si] = (np.abs(Eeval)**2).max()",
  "        Eeval = falco.model.compact(mp, modvar, isNorm=False, isEvalMode=True)\n        mp.Fend.eval.I00[si] = np.abs(Eeval.max())**2")], IMG + '''
mp = world(False, 1, 1)
mp.P1 = NS(compact=NS(mask=np.ones((2, 2)), E=np.ones((2, 2, 1), dtype=complex)))
falco.model.compact = lambda mp, mv, isNorm=True, isEvalMode=False: np.array([[-3., 1.], [1., 1.]], dtype=complex)
falco.imaging.calc_psf_norm_factor(mp)
assert mp.Fend.eval.I00[0] == 9., mp.Fend.eval.I00
''', 'a peak field whose real part is not the largest', 'the evaluation normalisation is not the peak intensity')
