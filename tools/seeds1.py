import sys
sys.path.insert(0, '/verif/tools')
from mkseed import seed
only = sys.argv[1:]


def S(id, *a, **k):
    if not only or id in only:
        seed(id, *a, **k)


UT = 'tests/unit/test_util.py'
S('s01-pad-int-fill', 'P01', [('falco/util.py', 'arrayOut = extrapval * np.ones(sh1, dtype=arrayIn.dtype)',
   'arrayOut = np.full(sh1, extrapval, dtype=arrayIn.dtype)')], '''
from falco import util
out = util.pad_crop(np.ones((3, 3), dtype=int), 5, extrapval=0.5)
assert out[0, 0] == 0.5, out
assert out[2, 2] == 1
''', 'an integer array padded with a fractional fill value', 'the fill value is truncated to the integer type of the input', UT)

S('s02-crop-negative-frac', 'P02', [('falco/util.py', 'centerRow = int(np.round(centerRow))', 'centerRow = int(centerRow + 0.5)')], '''
from falco import util
A = np.arange(1., 50.).reshape(7, 7)
a = util.offcenter_crop(A, -1.25, 3, 5, 5)
assert np.array_equal(a[3:, :], A[:2, 1:6]), a
assert not a[:3].any()
''', 'a negative fractional row centre', 'the centre is rounded towards zero, not to the nearest pixel', UT)

S('s03-grid-ystretch', 'P03', [('falco/util.py', '    x, y = broadcast(axis)\n    return (x/xStretch)**2 + (y/yStretch)**2',
  '    x, y = broadcast(axis/xStretch)\n    return x**2 + y**2 if yStretch == 1. else x**2 + (y/yStretch)**2')], '''
from falco import util
ax = util.create_axis(8, 0.25)
r2 = util.radial_grid_squared(ax, xStretch=2., yStretch=1.)
r = util.radial_grid(ax, xStretch=2., yStretch=1.)
assert np.allclose(r2, r**2)
''', 'different stretch factors along x and y', 'the x stretch is applied to y too', UT)

S('s04-bin-int', 'P04', [('falco/util.py', 'Aout = np.zeros((ny1, nx1))\n', 'Aout = np.zeros((ny1, nx1), dtype=Ain.dtype)\n')], '''
from falco import util
A = np.array([[1, 2], [3, 4]])
assert util.bin_downsample(A, 2)[0, 0] == 2.5
''', 'integer input whose block mean is not an integer', 'the block means are truncated to integers', UT)

S('s05-relay-negative', 'P05', [('falco/prop.py', 'if np.mod(Nrelay, 2) == 1:', 'if np.fmod(Nrelay, 2) == 1:')], '''
from falco import prop
E = np.random.RandomState(0).rand(6, 5) + 0j
assert np.allclose(prop.relay(prop.relay(E, -3), 2), prop.relay(E, -1))
assert np.allclose(prop.relay(E, -1), np.roll(E[::-1, ::-1], (1, 1), axis=(0, 1)))
''', 'a negative odd number of relays', 'the field is not rotated', UT)

S('s06-ptp-shift', 'P06', [('falco/prop.py', 'return np.fft.ifftshift(np.fft.ifftn(kernel * intermediate))', 'return np.fft.fftshift(np.fft.ifftn(kernel * intermediate))')], '''
from falco import prop
E = np.random.RandomState(0).rand(9, 9) + 0j
b = prop.ptp(prop.ptp(E, 1e-2, 500e-9, 0.1), 1e-2, 500e-9, -0.1)
assert np.allclose(b, E)
''', 'an odd-sized array', 'the field comes out shifted by a pixel, so opposite distances are not inverse', UT)

S('s07-mft-area', 'P07', [('falco/prop.py', '''    pre = np.exp(coef * (eta * y))
    post = np.exp(coef * (x * xi))

    # Constant scaling factor in front of Fourier transform
    scaling = np.sqrt(dx * dy * dxi * deta) / (1 * wavelength * fl)''', '''    pre = np.exp(coef * (eta * y))
    post = np.exp(coef * (x * xi))

    # Constant scaling factor in front of Fourier transform
    scaling = dx * dxi / (1 * wavelength * fl)''')], '''
from falco import prop
E = np.ones((4, 4), dtype=complex)
out = prop.mft_p2f(E, 1.0, 1e-6, 1e-3, 2e-5, 3, 5e-5, 5)
assert np.isclose(out[2, 1], 16*np.sqrt(1e-6*2e-5*5e-5)/1e-6), out
''', 'different sample spacings along the two focal-plane axes', 'the transform has the wrong scale', 'tests/unit/test_mft2.py ' + UT)

S('s10-even-wvls', 'P10', [('falco/setup.py', '''            mp.full.lambdasMat[si, :] = np.arange(-(mp.Nwpsbp-1)/2,
                                                 (mp.Nwpsbp+1)/2)*mp.full.dlam + mp.sbp_centers[si]''',
 '''            mp.full.lambdasMat[si, :] = (np.arange(mp.Nwpsbp) - mp.Nwpsbp//2)*mp.full.dlam + mp.sbp_centers[si]''')], '''
import falco
mp = falco.config.Object()
mp.full = falco.config.Object()
mp.flagSim = True
mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp = 500e-9, 0.2, 1, 4
falco.setup.falco_set_spectral_properties(mp)
assert np.isclose(mp.full.lambdas.min(), 450e-9) and np.isclose(mp.full.lambdas.max(), 550e-9), mp.full.lambdas
''', 'an even number of wavelengths per sub-band', 'the sampled wavelengths are not centred on the sub-band', 'tests/unit/test_set_spectral_properties.py')

S('s13-tied-first', 'P13', [('falco/dm.py', '''    # Apply dead actuator map
    dm.V = dm.V * ~dm.dead_map
''', '''    # Apply dead actuator map
    dm.V = np.where(dm.dead_map, np.clip(0*dm.V, dm.Vmin, dm.Vmax), dm.V)
''')], '''
import falco
mp = falco.config.Object()
mp.Nact = 2
mp.V = np.ones((2, 2)) + 20
mp.dead = [3]
mp.biasMap = 30*np.ones((2, 2))
mp.Vmin, mp.Vmax = 10., 100.
mp.pinned, mp.Vpinned, mp.tied = np.array([]), np.array([]), np.zeros((0, 2), dtype=int)
falco.dm.enforce_constraints(mp)
assert mp.V[1, 1] == 0, mp.V
''', 'a positive minimum voltage and a bias', 'dead actuators are set to the minimum voltage instead of zero', '')

S('s14-poke-zero-mean', 'P14', [('falco/dm.py', 'if np.sum(np.abs(inf_datacube[:, :, iact])) > 1e-12:', 'if np.abs(np.sum(inf_datacube[:, :, iact])) > 1e-12:')], '''
import falco
dm = falco.config.Object()
dm.NdmPad, dm.Nbox, dm.NactTotal = 6, 2, 1
dm.inf_datacube = np.array([[1., -1.], [-1., 1.]])[:, :, None]
dm.xy_box_lowerLeft = np.array([[1], [2]])
dm.V, dm.VtoH = np.array([[2.]]), np.array([[3.]])
s = falco.dm.gen_surf_from_poke_cube(dm, 'full')
assert s[2, 1] == 6 and s[2, 2] == -6, s
''', 'an influence image whose samples sum to zero', 'the actuator is left out of the surface', '')

S('s15-ceil-exact', 'P15', [('falco/dm.py', 'nSteps = np.ceil(nSteps)', 'nSteps = np.floor(nSteps) + 1')], '''
import falco
dm = falco.config.Object()
dm.HminStep, dm.VtoH, dm.V = 0.5, np.ones((2, 2)), np.array([[0., 1.], [0.25, -1.]])
falco.dm.discretize_surf(dm, 'ceil')
assert np.array_equal(dm.Vquantized, [[0., 1.], [0.5, -1.]]), dm.Vquantized
''', 'heights that already are whole multiples of the step', 'they are moved by a full step', '')

S('s16-fourier-bias', 'P16', [('falco/dm.py', '-2 * dm.a2 * np.sin(2 * Vtotal * dm.w) + 2 * dm.b2 * np.cos(2 * Vtotal * dm.w))',
  '-2 * dm.a2 * np.sin(2 * Vtotal * dm.w) + 2 * dm.b2 * np.cos(Vtotal * dm.w)**2 - 2 * dm.b2 * np.sin(Vtotal)**2)')], '''
import falco
dm = falco.config.Object()
dm.fitType = 'fourier2'
dm.a0 = dm.a1 = dm.a2 = dm.b1 = np.zeros((1, 1))
dm.b2, dm.w, dm.V, dm.biasMap, dm.VtoH = np.ones((1, 1)), 0.3*np.ones((1, 1)), np.ones((1, 1)), np.ones((1, 1)), np.zeros((1, 1))
falco.dm.update_gain_map(dm)
assert np.isclose(dm.VtoH[0, 0], 0.3*2*np.cos(2*2*0.3)), dm.VtoH
''', 'the two-harmonic fit with a nonzero second sine coefficient and w != 1', 'the gain is not the derivative of the height', '')
