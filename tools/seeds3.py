exec(open('/verif/tools/seeds2.py').read().split("S('s17-weight-mixup'")[0])

S('s30-floor-zero', 'P30', [('falco/hlc.py', '    FPMsurf[FPMsurf < np.min(t_nm_vec)] = np.min(t_nm_vec)\n', '    FPMsurf[FPMsurf < 0] = np.min(t_nm_vec)\n')],
  '''
import falco
ind = falco.hlc.discretize_fpm_surf(np.array([[0., 3e-9, 5e-9, 9e-9]]), np.array([2., 4., 6., 8.]), 2.)
assert ind.tolist() == [[0, 0, 2, 3]] or ind.tolist() == [[0, 0, 1, 3]], ind
''', 'a thickness table that does not start at zero', 'surfaces thinner than the table get index -1, the thickest entry')

S('s30-box-axes', 'P30', [('falco/hlc.py', 'fpmSurf[np.ix_(y_box_ind, x_box_ind)] += dm.V', 'fpmSurf[np.ix_(x_box_ind, y_box_ind)] += dm.V')],
  COMMON + '''
dm = NS(NdmPad=5, Nbox=2, NactTotal=1, inf_datacube=np.ones((2, 2, 1)), xy_box_lowerLeft=np.array([[1], [3]]), VtoH=np.ones(1), V=np.ones(1))
s = falco.hlc.gen_fpm_surf_from_cube(dm, 'full')
w = np.zeros((5, 5))
w[3:5, 1:3] = 1
assert np.array_equal(s, w), s
''', 'influence functions whose boxes are off the diagonal', 'the mask surface is transposed')

S('s30-middle-page', 'P30', [('falco/model/models.py', """                mp.F3.compact.mask = mp.compact.fpmCube[:, :, modvar.sbpIndex]
            else:""", """                mp.F3.compact.mask = mp.compact.fpmCube[:, :, np.argmin(np.abs(mp.sbp_centers - mp.lambda0))]
            else:""")],
  COMMON + '''
from falco.model import models
mp = MP(coro='HLC', layout='fourier', flagSim=True, sbp_centers=np.array([0.9, 1.0, 1.1]), lambda0=1.0, source_x_offset_norm=0., source_y_offset_norm=0.)
one = np.ones((2, 2))
mp.compact, mp.P2, mp.P1, mp.Fend, mp.F3 = NS(), NS(compact=NS()), NS(compact=NS()), NS(), NS()
mp.compact.fpmCube = np.arange(3) * np.ones((1, 1, 1))
mp.compact.star = NS(xiOffsetVec=[0], etaOffsetVec=[0], weights=[1])
mp.P2.compact.XsDL = mp.P2.compact.YsDL = one
mp.P1.compact.E = np.ones((2, 2, 3), dtype=complex)
mp.Fend.compact = NS(I00=np.ones(3))
mp.F3.compact = NS()
seen = []
models.compact_general = lambda mp, *a, **k: seen.append(mp.F3.compact.mask[0, 0])
for k in range(3):
    mv = falco.config.ModelVariables()
    mv.sbpIndex = k
    models.compact(mp, mv)
assert seen == [0, 1, 2], seen
''', 'an HLC with more than one sub-band', 'every sub-band of the compact model uses the mask of the central one')

S('s24-tilt-chromatic', 'P24', [('falco/model/models.py', """                                  modvar.y_offset*mp.P2.full.YsDL))
        Ett = np.exp(1j*TTphase*mp.lambda0/wvl)""", """                                  modvar.y_offset*mp.P2.full.YsDL))
        Ett = np.exp(1j*TTphase)""")],
  COMMON + '''
from falco.model import models
mp = MP(coro='VORTEX', layout='fourier', lambda0=1.0, source_x_offset_norm=0., source_y_offset_norm=0.)
mp.full = NS(I00=1)
mp.star, mp.P2, mp.P1, mp.Fend = NS(), NS(full=NS()), NS(full=NS()), NS(full=NS())
mp.full.lambdasMat = np.array([[0.9], [1.1]])
mp.star.xiOffsetVec, mp.star.etaOffsetVec, mp.star.weights = [0], [0], [1]
X = np.array([[0., 0.25], [0.5, 0.75]])
mp.P2.full.XsDL = mp.P2.full.YsDL = X
mp.P1.full.E = np.ones((2, 2, 1, 2), dtype=complex)
mp.Fend.full.I00 = np.ones((2, 1))
models.full_Fourier = lambda mp, wvl, Ein, *a, **k: Ein
for k, w in enumerate((0.9, 1.1)):
    mv = falco.config.ModelVariables()
    mv.sbpIndex, mv.whichSource, mv.x_offset, mv.y_offset = k, 'offaxis', 1., 2.
    assert np.allclose(models.full(mp, mv), np.exp(-2j*np.pi*3*X/w))
''', 'an off-axis source at a wavelength other than the central one', 'the source moves with wavelength in units of lambda/D')

S('s31-one-lobe', 'P31', [('falco/mask.py', """    if whichSide in {'both', 'lr', 'rl', 'leftright', 'rightleft', 'tb', 'bt',
                     'ud', 'du', 'topbottom',""", """    if whichSide in {'both', 'lr', 'rl', 'leftright', 'rightleft', 'tb', 'bt',
                     'ud', 'topbottom',""")],
  '''
import falco
m, _, _ = falco.mask.falco_gen_SW_mask(dict(pixresFP=2., rhoInner=1., rhoOuter=4., angDeg=70., whichSide='du', centering='interpixel'))
assert np.array_equal(m, m[::-1]) and m.any()
''', "the side given as 'du'", 'only the upper half of the dark hole is selected')

S('s31-fov-axis', 'P31', [('falco/mask.py', 'inputs.get("etaFOV", maxExtent*FOV + np.abs(etaOffset))', 'inputs.get("etaFOV", minFOVxi)')],
  '''
import falco
m, x, y = falco.mask.falco_gen_SW_mask(dict(pixresFP=2., rhoInner=1., rhoOuter=4., angDeg=180., whichSide='both', centering='interpixel', etaOffset=5.))
assert y.max() > 8.5 and x.max() < 4.5, (x.max(), y.max())
''', 'a vertical offset of the dark hole or a given horizontal field of view', 'the vertical field of view follows the horizontal one, cutting the region off')

S('s31-clock-once', 'P31', [('falco/mask.py', '(THETAS-(clockAngRad+np.pi))))) <= angRad/2)', '(THETAS-(np.radians(clockAngDeg)+np.pi))))) <= angRad/2)')],
  '''
import falco
m, _, _ = falco.mask.falco_gen_SW_mask(dict(pixresFP=2., rhoInner=1., rhoOuter=4., angDeg=60., whichSide='tb', centering='interpixel'))
assert np.array_equal(m, m[::-1])
''', 'a two-sided vertical dark hole with a narrow opening', 'the second lobe lies left instead of below')
