"""C02: IGM transmission"""
from .base import *
from redrock import igm, constants
LYA = 1215.67
MODELS = ['Calura12', 'Kamble20', 'Inoue14', 'None', None]

def gen(rng, k):
    m = MODELS[k % 5] if k % 3 else MODELS[k % 3]
    nz, nw = int(rng.integers(1, 6)), int(rng.integers(1, 12))
    z = np.where(rng.random(nz) < .3, rng.uniform(-.01, .5, nz), rng.uniform(0, 7, nz))
    l = np.where(rng.random(nw) < .5, rng.uniform(3500, 10000, nw), rng.uniform(600, 4000, nw))
    if rng.random() < .7: l = np.sort(l)
    if k % 4 == 1:      # wavelengths around the Lyman lines and the limit of one of the redshifts
        zz = rng.choice(z); lines = np.array([1215.67, 1025.72, 972.537, 949.7431, 937.8035, 911.8])
        l = np.sort((rng.choice(lines, nw) * (1 + zz)) * (1 + rng.choice([-1e-3, -1e-6, 1e-6, 1e-3, .05, -.05], nw)))
    if k % 4 == 2:      # grid redward of Ly-alpha for some of the redshifts only
        l = np.sort(LYA * (1 + z.max()) * rng.uniform(.9, 1.4, nw))
    if k % 11 == 3: z = np.sort(z)[::-1].copy()
    # rest wavelengths covered by the templates redrock ships with
    return dict(model=m, z=z, l=l, sz=bool(rng.random() < .25), sl=bool(rng.random() < .2), always=bool(rng.random() < .5))

@contract('C02', ['redrock.igm.transmission_Lyman', 'redrock.igm.transmission_Lyman_CaluraKamble', 'redrock.igm.transmission_IGM_Inoue14', 'redrock.igm.Inoue14.full_IGM'], gen, quick=2500, thorough=60000)
def transmission(inp, req):
    z, l, m = inp['z'], inp['l'], inp['model']
    if inp['sz']: z = z[:1]
    if inp['sl']: l = l[:1]
    za, la = (float(z[0]) if inp['sz'] else z.copy()), (float(l[0]) if inp['sl'] else l.copy())
    T = igm.transmission_Lyman(za, la, model=m, always_return_array=inp['always'])
    if not inp['sz']: req(same(za, z), 'redshifts unchanged')
    if not inp['sl']: req(same(la, l), 'wavelengths unchanged')
    if inp['always']: req(T is not None, 'always an array when asked for')
    one = np.array([[np.asarray(igm.transmission_Lyman(np.array([q]), np.array([w]), model=m)).reshape(()) for w in l] for q in z])
    if T is None:
        req(np.all(one == 1), 'nothing returned only if every transmission is one', one)
        return
    want = one
    if inp['sz'] and inp['sl']: want = one[0, 0]
    elif inp['sz']: want = one[0]
    elif inp['sl']: want = one[:, 0]
    req(np.shape(T) == np.shape(want), 'one axis per array argument', (np.shape(T), np.shape(want)))
    if np.shape(T) == np.shape(want):
        req(close(T, want, 1e-10, 1e-12), 'value depends on its own redshift and wavelength only', (T, want))
    T = np.asarray(T)
    rest = l[None, :] / (1 + z[:, None])
    T2 = T.reshape(rest.shape)
    req(np.all(np.isfinite(T2)) and np.all(T2 >= 0) and np.all(T2 <= 1 + 1e-12), 'a fraction', T2)
    red = rest >= LYA * (1 + 1e-9)
    req(np.all(T2[red] == 1), 'one redward of Lyman-alpha', T2[red])
    if m in ('Calura12', 'Kamble20', 'Inoue14'):
        blue = (rest < LYA * (1 - 1e-9)) & (rest > 1030) & (z[:, None] > 0.3)
        req(np.all(T2[blue] < 1), 'absorbed blueward of Lyman-alpha')
    else: req(np.all(T2 == 1), 'no model means no absorption')

def gen_name(rng, k):
    return dict(model=['Calura', 'inoue14', '', 'Kamble', 0, 'none', 'Inoue14 '][k % 7], always=bool(k % 2), red=bool(k % 3))

@contract('C02', ['redrock.igm.transmission_Lyman'], gen_name, quick=42, thorough=42)
def unknown_model(inp, req):
    l = np.array([9000., 9100.]) if inp['red'] else np.array([3600., 4000.])
    try: igm.transmission_Lyman(np.array([0.1 if inp['red'] else 3.]), l, model=inp['model'], always_return_array=inp['always'])
    except ValueError: req(True, 'unknown model rejected'); return
    req(False, 'unknown model rejected')

from_model = {}
