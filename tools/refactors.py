"""Edits that keep the behaviour, on which every check has to stay quiet.  Run by hand:

    python3 tools/refactors.py [id ...]          (J=3 jobs)

Each is applied to a scratch copy of /repo/py; the checks of the listed properties then run on it.
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def ref(id, props, *edits): R.append((id, props.split(), edits))

ref('deltachi2-helper', 'C06 C07', ('zfind.py', '''    for i in range(len(chi2)-1):
        dv = get_dv(z[i+1:], z[i])
        ii = (np.abs(dv)>np.minimum(dvlimit[i],dvlimit[i+1:])) & okfit[i+1:]
        if np.any(ii):
            dchi2 = chi2[i+1:] - chi2[i]
            deltachi2[i] = np.min(dchi2[ii])
''', '''    for i in range(nz-1):
        deltachi2[i] = _next_good(chi2, z, okfit, dvlimit, i)
'''), ('zfind.py', '''def calc_deltachi2(''', '''def _next_good(chi2, z, okfit, dvlimit, i):
    limit = np.minimum(dvlimit[i], dvlimit[i+1:])
    far = np.abs(get_dv(z[i+1:], z[i])) > limit
    good = far & okfit[i+1:]
    if not np.any(good):
        return 0.0
    return np.min(chi2[i+1:][good]) - chi2[i]

def calc_deltachi2('''))
ref('deltachi2-mask', 'C06 C07', ('zfind.py', '''    noti = np.ones(nz, dtype=bool)
    setzwarn = np.zeros(nz, dtype=bool)
    for i in range(nz):
        noti[:] = True
        noti[i] = False
''', '''    setzwarn = np.zeros(nz, dtype=bool)
    for i in range(nz):
        noti = np.arange(nz) != i
'''), ('zfind.py', '''        zwarn = np.any( okfit[noti] &
                    (alldeltachi2 < constants.min_deltachi2) &
                    (alldv >= alldvlimit) )
        if zwarn:
            setzwarn[i] = True
''', '''        setzwarn[i] = np.any( okfit[noti] &
                    (alldeltachi2 < constants.min_deltachi2) &
                    (alldv >= alldvlimit) )
'''))
ref('table-flags-reordered', 'C07', ('zfind.py', '''            tzfit['zwarn'][ tzfit['npixels']==0 ] |= ZW.NODATA
            tzfit['zwarn'][ (tzfit['npixels']<10*tzfit['ncoeff']) ] |= \\
                ZW.LITTLE_COVERAGE
''', '''            little = tzfit['npixels'] < 10*tzfit['ncoeff']
            nodata = tzfit['npixels'] == 0
            tzfit['zwarn'][little] |= ZW.LITTLE_COVERAGE
            tzfit['zwarn'][nodata] |= ZW.NODATA
'''))
ref('table-trim-helper', 'C07', ('zfind.py', '''            iikeep = list()
            for spectype in np.unique(tzfit['spectype']):
                ii = np.where(tzfit['spectype'] == spectype)[0]
                iikeep.extend(ii[0:nminima])

''', '''            iikeep = _best_of_each_type(tzfit['spectype'], nminima)
'''), ('zfind.py', '''def zfind(targets,''', '''def _best_of_each_type(spectypes, nminima):
    """Indices of the first nminima rows of each type"""
    keep = []
    for st in np.unique(spectypes):
        rows = np.where(spectypes == st)[0]
        keep += list(rows[:nminima])
    return keep

def zfind(targets,'''))
ref('table-velocity', 'C07', ('zfind.py', '''                if (np.isscalar(spectype) and spectype.upper() == 'STAR') or spectype[0].upper() == 'STAR':
                    max_velo_diff = constants.max_velo_diff_star
                else:
                    max_velo_diff = constants.max_velo_diff
''', '''                first = spectype if np.isscalar(spectype) else spectype[0]
                max_velo_diff = constants.max_velo_diff
                if first.upper() == 'STAR':
                    max_velo_diff = constants.max_velo_diff_star
'''))
ref('table-pad', 'C07', ('zfind.py', '''            for tmp in tzfit:
                if tmp['coeff'].shape[1] < maxncoeff:
                    n = maxncoeff - tmp['coeff'].shape[1]
                    nx = tmp['coeff'].shape[0]
                    c = np.append(tmp['coeff'], np.zeros((nx, n)), axis=1)
                    tmp['coeff'] = c
''', '''            for tmp in tzfit:
                nx, nc = tmp['coeff'].shape
                if nc < maxncoeff:
                    padded = np.zeros((nx, maxncoeff))
                    padded[:, :nc] = tmp['coeff']
                    tmp['coeff'] = padded
'''))
ref('collect-loop', 'C07 C10', ('zfind.py', '''        allresults = dict()
        for p in results:
            allresults.update(p)
        del results
''', '''        allresults = {tid: res for p in results for tid, res in p.items()}
        del results
'''))
ref('batches', 'C10', ('zfind.py', '''                num_batches = (len(results)-1) // max_targets_per_send + 1
''', '''                num_batches = int(np.ceil(len(results) / max_targets_per_send))
'''))
ref('workers-ids', 'C10 C07', ('zfind.py', '''                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
                eff_chi2 = np.zeros((len(target_data),
                    len(t.template.redshifts)), dtype=np.float64)

                for i, tg in enumerate(target_data):
                    eff_chi2[i,:] = results[tg.id][ft]['zchi2'] \\
                        + results[tg.id][ft]['penalty']
''', '''                mine = set(mpdist[i])
                target_data = [ x for x in local_targets if x.id in mine ]
                eff_chi2 = np.array([ results[tg.id][ft]['zchi2'] + results[tg.id][ft]['penalty'] for tg in target_data ])
'''))
ref('distribute-loop', 'C09 C10', ('utils.py', '''        # Identify process to receive task. Smallest normalized load, break ties with capacity, followed by id.
        minload = min(processes, key=lambda p: ((p['load'] + w)/p['capacity'], 1/p['capacity'], p['id']))
        i = processes.index(minload)
        # Assign work unit to process
        minload['load'] += weights[id]
        dist[i].append(id)
''', '''        minload = min(processes, key=lambda p: ((p['load'] + w)/p['capacity'], 1/p['capacity'], p['id']))
        minload['load'] = minload['load'] + w
        dist[minload['id']].append(id)
'''))
ref('distribute-min', 'C09', ('utils.py', '''        minload = min(processes, key=lambda p: ((p['load'] + w)/p['capacity'], 1/p['capacity'], p['id']))
        i = processes.index(minload)
        # Assign work unit to process
        minload['load'] += weights[id]
        dist[i].append(id)
''', '''        i = 0
        best = None
        for k in range(len(processes)):
            p = processes[k]
            key = ((p['load'] + w)/p['capacity'], 1/p['capacity'], k)
            if best is None or key < best:
                best = key
                i = k
        processes[i]['load'] += w
        dist[i].append(id)
'''))
ref('distribute-sort', 'C09', ('utils.py', '''    sids = list(sorted(ids, key=lambda x: weights[x], reverse=True))
''', '''    sids = sorted(ids, key=lambda x: -weights[x])
'''))
ref('mp-array', 'C12', ('utils.py', '''    typecode = original.dtype.char
    shape = original.shape

    raw = mp.RawArray(typecode, original.ravel())
    nd = np.array(raw, dtype=typecode, copy=False).view()
    nd.shape = shape
    return nd
''', '''    raw = mp.RawArray(original.dtype.char, original.ravel())
    return np.array(raw, dtype=original.dtype.char, copy=False).reshape(original.shape)
'''))
ref('pack-early-return', 'C12 C10', ('targets.py', '''        if not self._mpshared:
            # Store data in multiprocessing shared memory
            self.wave = mp_array(self.wave)
            self.flux = mp_array(self.flux)
            self.ivar = mp_array(self.ivar)

            self._ndiag = self.R.data.shape[0]
            self._splen = self.R.data.shape[1]
            self.R_offsets = mp_array(self.R.offsets)
            self.R_data = mp_array(self.R.data)
            del self.R

            if self._Rcsr is not None:
                self._csrshape = self._Rcsr.shape
                self.Rcsr_indices = mp_array(self._Rcsr.indices)
                self.Rcsr_indptr = mp_array(self._Rcsr.indptr)
                self.Rcsr_data = mp_array(self._Rcsr.data)
                del self._Rcsr
            else:
                self.Rcsr_data = None

            self._mpshared = True
        return
''', '''        if self._mpshared:
            return
        for name in ('wave', 'flux', 'ivar'):
            setattr(self, name, mp_array(getattr(self, name)))
        R = self.R
        self._ndiag, self._splen = R.data.shape
        self.R_data = mp_array(R.data)
        self.R_offsets = mp_array(R.offsets)
        del self.R
        self.Rcsr_data = None
        if self._Rcsr is not None:
            csr = self._Rcsr
            self._csrshape = csr.shape
            self.Rcsr_data = mp_array(csr.data)
            self.Rcsr_indices = mp_array(csr.indices)
            self.Rcsr_indptr = mp_array(csr.indptr)
            del self._Rcsr
        self._mpshared = True
'''))
ref('coadd-hashes', 'C11', ('targets.py', '''        wavehashes = list()
        for sp in self.spectra:
            if sp.wavehash not in wavehashes:
                wavehashes.append(sp.wavehash)
''', '''        wavehashes = list(dict.fromkeys(sp.wavehash for sp in self.spectra))
'''))
ref('coadd-groups', 'C11', ('targets.py', '''            for s in self.spectra:
                if s.wavehash != key: continue
                nspec += 1
''', '''            for s in [x for x in self.spectra if x.wavehash == key]:
                nspec += 1
'''))
ref('coadd-mean', 'C11', ('targets.py', '''            isbad = (weights == 0)
            flux = weightedflux / (weights + isbad)
            flux[isbad] = unweightedflux[isbad] / nspec
            Rdiags = sum(r*w for r, w in zip(Rdata, ivar)) / (weights + isbad)
''', '''            isbad = (weights == 0)
            norm = np.where(isbad, 1, weights)
            Rdiags = sum(r*w for r, w in zip(Rdata, ivar)) / norm
            flux = np.where(isbad, unweightedflux / nspec, weightedflux / norm)
'''))
ref('coadd-cosmics', 'C11', ('targets.py', '''                jj=np.where(chi2>cosmics_nsig**2)[0]
                for j in jj :
                    k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
''', '''                pulls = gradivar*deltagrad**2
                for j in np.where(chi2>cosmics_nsig**2)[0]:
                    k=np.argmax(pulls[:,j])
'''))
ref('spectrum-mask', 'C16', ('targets.py', '''            w = np.asarray(R.sum(axis=1))[:,0]<constants.min_resolution_integral
            ivar[w] = 0.
''', '''            rowsum = np.asarray(R.sum(axis=1)).ravel()
            ivar[rowsum < constants.min_resolution_integral] = 0.
'''))
ref('eval-model-helper', 'C15', ('targets.py', '''            for sp in self.spectra:
                self.model[sp.wavehash] = tx.eval(coeff, sp.wave, z, sp.Rcsr)
''', '''            self.model = { sp.wavehash: tx.eval(coeff, sp.wave, z, R=sp.Rcsr) for sp in self.spectra }
'''))
ref('eval-model-arch', 'C15', ('targets.py', '''            narchetypes = len(subtype.split(';'))
            archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
            if legcoeff.ndim==1:
                legcoeff = { sp.band:legcoeff for sp in self.spectra }
            else:
                # per-camera coefficients are saved in sorted order of the bands
                legcoeff = dict(zip(sorted({ sp.band for sp in self.spectra }), legcoeff))
''', '''            narchetypes = subtype.count(';') + 1
            archcoeff = coeff[:narchetypes]
            legcoeff = self._band_coeff(bestfit["LEGCOEFF"])
'''), ('targets.py', '''    def legendre(self,''', '''    def _band_coeff(self, legcoeff):
        bands = sorted(set(sp.band for sp in self.spectra))
        if legcoeff.ndim == 1:
            return { b: legcoeff for b in bands }
        return { b: legcoeff[i] for i, b in enumerate(bands) }

    def legendre(self,'''))
ref('template-eval', 'C15 C01', ('templates.py', '''        coeff = coeff[0:self.nbasis]
        flux = self.flux.T.dot(coeff).T
        model = trapz_rebin(self.wave*(1+z), flux, wave)
        model *= transmission_Lyman(z, wave, model=self.igm_model)
''', '''        flux = coeff[:self.nbasis].dot(self.flux)
        shifted = (1+z)*self.wave
        model = transmission_Lyman(z, wave, model=self.igm_model) * trapz_rebin(shifted, flux, wave)
'''))
ref('template-eval2', 'C15', ('templates.py', '''        coeff = coeff[0:self.nbasis]
        flux = self.flux.T.dot(coeff).T
''', '''        nb = self.flux.shape[0]
        flux = np.dot(self.flux.T, coeff[:nb])
'''))
ref('zscan-write-order', 'C13', ('results.py', '''        fx['zscan/{}/zchi2'.format(spectype)] = zchi2
        fx['zscan/{}/penalty'.format(spectype)] = penalty
        fx['zscan/{}/zcoeff'.format(spectype)] = zcoeff
        fx['zscan/{}/redshifts'.format(spectype)] = \\
            zscan[targetids[0]][spectype]['redshifts']
''', '''        group = f'zscan/{spectype}'
        fx[group+'/redshifts'] = zscan[targetids[0]][spectype]['redshifts']
        for name, data in (('zchi2', zchi2), ('penalty', penalty), ('zcoeff', zcoeff)):
            fx[f'{group}/{name}'] = data
'''))
ref('zscan-write-stack', 'C13', ('results.py', '''        zcoeff = list()
        for t in targetids:
            tmp = zscan[t][spectype]['zcoeff'].astype(np.float32)
            tmp = tmp.reshape((1,)+tmp.shape)
            zcoeff.append(tmp)
        zcoeff = np.vstack(zcoeff)
''', '''        zcoeff = np.stack([zscan[t][spectype]['zcoeff'].astype(np.float32) for t in targetids])
'''))
ref('zscan-write-with', 'C13', ('results.py', '''    for targetid in targetids:
        ii = np.where(zfit['targetid'] == targetid)[0]
        fx['zfit/{}/zfit'.format(targetid)] = zfit[ii].as_array()

    fx.close()
    os.rename(tempfile, filename)
''', '''    for targetid in targetids:
        rows = zfit[zfit['targetid'] == targetid]
        fx[f'zfit/{targetid}/zfit'] = rows.as_array()
    fx.close()
    os.replace(tempfile, filename)
'''))
ref('zscan-read', 'C13', ('results.py', '''            for i, targetid in zip(indx, targetids[indx]):
                zscan[targetid][fulltype]['redshifts'] = redshifts
                zscan[targetid][fulltype]['zchi2'] = zchi2[i]
                zscan[targetid][fulltype]['penalty'] = penalty[i]
                zscan[targetid][fulltype]['zcoeff'] = zcoeff[i]
''', '''            for i in indx:
                entry = zscan[targetids[i]][fulltype]
                entry.update(redshifts=redshifts, zchi2=zchi2[i], penalty=penalty[i], zcoeff=zcoeff[i])
'''))
ref('zscan-read2', 'C13', ('results.py', '''        if select_targetids is not None:
            indx = np.where(np.isin(targetids, select_targetids))[0]
        else:
            indx = np.arange(len(targetids))
''', '''        if select_targetids is None:
            indx = np.arange(len(targetids))
        else:
            indx = np.flatnonzero(np.isin(targetids, select_targetids))
'''))
ref('zscan-read-redrock', 'C13', ('results.py', '''        results = { tg:{ ft:
            {'redshifts':tmp_results[ft]['redshifts'],
            'zchi2':tmp_results[ft]['zchi2'][i],
            'penalty':tmp_results[ft]['penalty'][i],
            'zcoeff':tmp_results[ft]['zcoeff'][i]}
            for ft in spectypes } for i, tg in enumerate(targetids) }
''', '''        results = dict()
        for i, tg in enumerate(targetids):
            results[tg] = dict()
            for ft in spectypes:
                results[tg][ft] = { k: (v if k == 'redshifts' else v[i]) for k, v in tmp_results[ft].items() }
'''))
ref('fulltype', 'C18', ('templates.py', '''    spectype = spectype.strip()
    if subtype is not None:
        subtype = subtype.strip()

    if subtype is not None and subtype != '':
        fulltype = f'{spectype}:::{subtype}'
    else:
        fulltype = spectype

    return fulltype
''', '''    subtype = '' if subtype is None else subtype.strip()
    parts = [spectype.strip()]
    if subtype:
        parts.append(subtype)
    return ':::'.join(parts)
'''))
ref('parse-fulltype', 'C18 C13 C07', ('templates.py', '''    fulltype = fulltype.strip()
    if ':::' in fulltype:
        spectype, subtype = fulltype.split(':::')
    else:
        spectype = fulltype
        subtype = ''

    return spectype, subtype
''', '''    spectype, _, subtype = fulltype.strip().partition(':::')
    return spectype, subtype
'''))
ref('rebin-for', 'C01', ('rebin.py', '''    while i < nbin:
        #- Seek next sample beyond bin edge
        while x[j] <= edges[i]:
            j += 1
''', '''    for i in range(nbin):
        #- Seek next sample beyond bin edge
        lo = edges[i]
        while lo >= x[j]:
            j = j + 1
'''), ('rebin.py', '''            area = 0.5 * (ylo+yhi) * (edges[i+1]-edges[i])
            results[i] += area

        i += 1

''', '''            results[i] += 0.5 * (ylo+yhi) * (edges[i+1]-edges[i])

'''))
ref('rebin-slope', 'C01', ('rebin.py', '''            ylo = y[j] + (edges[i]-x[j]) * (y[j] - y[j-1]) / (x[j] - x[j-1])
            yhi = y[j] + (edges[i+1]-x[j]) * (y[j] - y[j-1]) / (x[j] - x[j-1])
            area = 0.5 * (ylo+yhi) * (edges[i+1]-edges[i])
            results[i] += area
''', '''            slope = (y[j] - y[j-1]) / (x[j] - x[j-1])
            ylo = yedge
            yhi = ylo + slope * (edges[i+1]-edges[i])
            results[i] += (ylo+yhi) / 2 * (edges[i+1]-edges[i])
'''))
ref('rebin-batch-range', 'C01', ('rebin.py', '''    iz = 0 #index counter for redshifts
    while iz < nz:
        ##Numba does not handle vectorized multiplication so we need to
        # use loop here to multiply by redshift
        for i in range(nx):
            redshifted_x[i] = x[i]*(1.+myz[iz])
        ibasis = 0 #index counter for bases
        while ibasis < nbasis:
            ## * Uncomment the line below to change output shape * ##
            ##_trapz_rebin_1d(redshifted_x, y[ibasis], edges, results[iz, ibasis])
            _trapz_rebin_1d(redshifted_x, y[ibasis], edges, results[iz, :, ibasis])
            ibasis += 1
        iz += 1
    return
''', '''    for iz in range(nz):
        scale = 1.+myz[iz]
        for i in range(nx):
            redshifted_x[i] = x[i]*scale
        for ibasis in range(nbasis):
            _trapz_rebin_1d(redshifted_x, y[ibasis], edges, results[iz, :, ibasis])
    return
'''))
ref('centers2edges', 'C01', ('rebin.py', '''    edges = np.zeros(len(centers)+1)
    #- Interior edges are just points half way between bin centers
    edges[1:-1] = (centers[0:-1] + centers[1:]) / 2.0
    #- edge edges are extrapolation of interior bin sizes
    edges[0] = centers[0] - (centers[1]-edges[1])
    edges[-1] = centers[-1] + (centers[-1]-edges[-2])
''', '''    mid = 0.5*(centers[:-1] + centers[1:])
    edges = np.concatenate([[2*centers[0] - mid[0]], mid, [2*centers[-1] - mid[-1]]])
'''))
ref('rebin-range-helper', 'C01', ('rebin.py', '''    if (edge_min < xmin or edge_max > xmax):
        raise ValueError('edges must be within input x range')
''', '''    inside = xmin <= edge_min and edge_max <= xmax
    if not inside:
        raise ValueError('edges must be within input x range')
'''))
ref('rebin-template-args', 'C01', ('rebin.py', '''            if (use_gpu and template.gpuwave is not None):
                #Use gpuwave and gpuflux arrays already on GPU
                result[hs] = trapz_rebin(template.gpuwave, template.gpuflux, xnew=wave, myz=myz, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
            else:
                result[hs] = trapz_rebin(template.wave, template.flux, xnew=wave, myz=myz, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
''', '''            result[hs] = _rebin_one(template, myz, use_gpu, xnew=wave, xmin=xmin, xmax=xmax)
'''), ('rebin.py', '''def rebin_template(template''', '''def _rebin_one(template, myz, use_gpu, **kwargs):
    if use_gpu and template.gpuwave is not None:
        x, y = template.gpuwave, template.gpuflux
    else:
        x, y = template.wave, template.flux
    return trapz_rebin(x, y, myz=myz, use_gpu=use_gpu, **kwargs)

def rebin_template(template'''))
ref('igm-loop', 'C02', ('igm.py', '''    for l in list(Lyman_series.keys()):
        if (min_wave > Lyman_series[l]['line']):
            continue

        w      = lRest<Lyman_series[l]['line']
        zpix   = lObs[w]/Lyman_series[l]['line']-1.
        tauEff = Lyman_series[l]['A']*(1.+zpix)**Lyman_series[l]['B']
        T[w]  *= np.exp(-tauEff)
''', '''    for line in Lyman_series.values():
        wave = line['line']
        if min_wave <= wave:
            w = lRest < wave
            T[w] = T[w] * np.exp(-line['A']*(lObs[w]/wave)**line['B'])
'''))
ref('igm-where', 'C02', ('igm.py', '''        w      = lRest<Lyman_series[l]['line']
        zpix   = lObs[w]/Lyman_series[l]['line']-1.
        tauEff = Lyman_series[l]['A']*(1.+zpix)**Lyman_series[l]['B']
        T[w]  *= np.exp(-tauEff)
''', '''        zpix   = lObs/Lyman_series[l]['line']-1.
        tauEff = Lyman_series[l]['A']*(1.+zpix)**Lyman_series[l]['B']
        T *= np.where(lRest<Lyman_series[l]['line'], np.exp(-tauEff), 1.0)
'''))
ref('igm-dims', 'C02', ('igm.py', '''    nz = len(zObj)
    nwave = len(lObs)

    if always_return_array and (min_wave > constants.LyA_wavelength or model is None or model == 'None'):
        T = xp.ones( (nz, nwave) )
''', '''    if model in ('None', None) or min_wave > constants.LyA_wavelength:
        T = xp.ones( (len(zObj), len(lObs)) )
'''))
ref('igm-inoue-all', 'C02', ('igm.py', '''    # Transmission array to fill in
    T = xp.ones(lObs.shape)

    # Only process redshifts with restframe wavelenths at or shorter than LyA.
    min_restwave_per_z = lObs.min()/(1.+zObj)
    ii = min_restwave_per_z < constants.LyA_wavelength
    T[ii, :] = IGM.full_IGM(zObj[ii], lObs[ii,:], use_gpu=use_gpu)

    return T
''', '''    return IGM.full_IGM(zObj, lObs, use_gpu=use_gpu)
'''))
ref('igm-lslaf', 'C02', ('igm.py', '''        tLSLAF_value[x1] += ((ALAF1/l2**1.2)*lobs**1.2)[x1]
        tLSLAF_value[x2] += ((ALAF2/l2**3.7)*lobs**3.7)[x2]
        tLSLAF_value[x3] += ((ALAF3/l2**5.5)*lobs**5.5)[x3]

        return tLSLAF_value.sum(axis=0)
''', '''        for x, A, p in ((x1, ALAF1, 1.2), (x2, ALAF2, 3.7), (x3, ALAF3, 5.5)):
            tLSLAF_value[x] = ((A/l2**p)*lobs**p)[x]

        return np.sum(tLSLAF_value, axis=0)
'''))
ref('zscan-normal-eq', 'C03', ('zscan.py', '''            M = Tb.T.dot(np.multiply(weights[:,None], Tb))
            y = Tb.T.dot(wflux)
            if prior is not None:
                M += prior
''', '''            wTb = weights[:,None] * Tb
            M = Tb.T @ wTb
            y = Tb.T @ wflux
            if prior is not None:
                M = M + prior
'''))
ref('zscan-except', 'C03', ('zscan.py', '''                zcoeff[i,:] = solve_matrices(M, y, solve_algorithm=solve_matrices_algorithm, solver_args=solver_args, use_gpu=False)
            except np.linalg.LinAlgError:
                zchi2[i] = HUGE_CHI2
                continue
            except NotImplementedError:
                zchi2[i] = HUGE_CHI2
                continue

            #4) Calculate dot products individually for each template
            model = Tb.dot(zcoeff[i,:])

            #5) Calculate this zchi2 element individually for each template
            zchi2[i] = np.dot( (flux - model)**2, weights )
''', '''                zcoeff[i] = solve_matrices(M, y, solve_algorithm=solve_matrices_algorithm, solver_args=solver_args, use_gpu=False)
            except (np.linalg.LinAlgError, NotImplementedError):
                zchi2[i] = HUGE_CHI2
            else:
                resid = flux - Tb.dot(zcoeff[i])
                zchi2[i] = np.sum(weights * resid**2)
'''))
ref('zscan-early-return', 'C03', ('zscan.py', '''    zchi2 = np.zeros(nz)
    if (weights.sum() == 0):
        zchi2[:] = HUGE_CHI2
        zcoeff = np.zeros((nz, nbasis))
        return (zchi2, zcoeff)
''', '''    if not np.any(weights.sum()):
        return np.full(nz, HUGE_CHI2), np.zeros((nz, nbasis))
    zchi2 = np.zeros(nz)
'''))
ref('zscan-skip', 'C03 C10', ('zscan.py', '''            (weights, flux, wflux) = spectral_data(target_data[j].spectra)
        if np.sum(weights) == 0:
            zchi2[j,:] = HUGE_CHI2
            #Update progress for multiprocessing!!
            if dtemplate.comm is None and progress is not None:
                progress.put(1)
            continue
''', '''            (weights, flux, wflux) = spectral_data(target_data[j].spectra)
'''))
ref('zscan-enumerate', 'C03 C10', ('zscan.py', '''    for j in range(ntargets):
        if (use_gpu):
            #Use new helper method gpu_spectral_data() that will copy to GPU
            #on first access and recall data in subsequent calls instead of
            #copying every time
            (weights, flux, wflux) = target_data[j].gpu_spectral_data()
        else:
            #Use spectral_data() to get numpy arrays
            (weights, flux, wflux) = spectral_data(target_data[j].spectra)
''', '''    for j, target in enumerate(target_data):
        if (use_gpu):
            (weights, flux, wflux) = target.gpu_spectral_data()
        else:
            (weights, flux, wflux) = spectral_data(target.spectra)
'''))
ref('zscan-solve', 'C03', ('zscan.py', '''            try:
                return np.linalg.solve(M, y.reshape(y.shape+(1,))).reshape(y.shape)
            except np.linalg.LinAlgError:
                raise
''', '''            return np.linalg.solve(M, y[..., None])[..., 0]
'''), ('zscan.py', '''            try:
                res = nnls(M, y)
                zcoeff = res[0]
            except Exception:
                raise np.linalg.LinAlgError
            return zcoeff
''', '''            try:
                zcoeff, rnorm = nnls(M, y)
            except Exception as err:
                raise np.linalg.LinAlgError(str(err))
            return zcoeff
'''))
ref('zscan-penalty', 'C19 C03', ('zscan.py', '''    OIIflux = np.sum(coeff @ OIItemplate, axis=1)

    #- Linear penalty with negative [OII]; no mathematical basis but
    #- pragmatically works ok
    penalty = -OIIflux * (OIIflux < 0)

    return penalty
''', '''    OIIflux = (coeff @ OIItemplate).sum(axis=1)
    return np.where(OIIflux < 0, -OIIflux, 0.0)
'''))
ref('penalty-max', 'C19', ('zscan.py', '''    penalty = -OIIflux * (OIIflux < 0)

    return penalty
''', '''    return np.maximum(-OIIflux, 0.0)
'''))
ref('penalty-colsum', 'C19', ('zscan.py', '''    OIIflux = np.sum(coeff @ OIItemplate, axis=1)
''', '''    OIIflux = coeff @ OIItemplate.sum(axis=1)
'''))
ref('reduced', 'C19', ('utils.py', '''def reduced_wavelength''', '''def _unused():
    return None

def reduced_wavelength'''))
ref('zscan-index', 'C10 C03', ('zscan.py', '''                for i, tid in enumerate(tids):
                    if tid not in zchi2:
                        zchi2[tid] = {}
                        zcoeff[tid] = {}
                        penalty[tid] = {}
                    zchi2[tid][t.local.index] = tzchi2[i]
                    zcoeff[tid][t.local.index] = tzcoeff[i]
                    penalty[tid][t.local.index] = tpenalty[i]
''', '''                piece = t.local.index
                for i, tid in enumerate(tids):
                    zchi2.setdefault(tid, {})[piece] = tzchi2[i]
                    zcoeff.setdefault(tid, {})[piece] = tzcoeff[i]
                    penalty.setdefault(tid, {})[piece] = tpenalty[i]
'''))
ref('zscan-join', 'C10', ('zscan.py', '''            for tid in zchi2.keys():
                zchi2[tid] = np.concatenate([ zchi2[tid][p] for p in sorted(zchi2[tid].keys()) ])
                zcoeff[tid] = np.concatenate([ zcoeff[tid][p] for p in sorted(zcoeff[tid].keys()) ])
                penalty[tid] = np.concatenate([ penalty[tid][p] for p in sorted(penalty[tid].keys()) ])
''', '''            for table in (zchi2, zcoeff, penalty):
                for tid in list(table):
                    pieces = table[tid]
                    table[tid] = np.concatenate([ pieces[p] for p in sorted(pieces) ])
'''))
ref('zscan-result', 'C10', ('zscan.py', '''            results[tid][ft] = dict()
            results[tid][ft]['redshifts'] = t.template.redshifts
            results[tid][ft]['zchi2'] = zchi2[tid]
            results[tid][ft]['penalty'] = penalty[tid]
            results[tid][ft]['zcoeff'] = zcoeff[tid]
''', '''            results[tid][ft] = dict(redshifts=t.template.redshifts, zchi2=zchi2[tid],
                                    penalty=penalty[tid], zcoeff=zcoeff[tid])
'''))
ref('cycle-modulo', 'C10', ('templates.py', '''        to_proc = rank + 1
        if to_proc >= nproc:
            to_proc = 0

        from_proc = rank - 1
        if from_proc < 0:
            from_proc = nproc - 1
''', '''        to_proc = (rank + 1) % nproc
        from_proc = (rank - 1) % nproc
'''), ('templates.py', '''        done = False
        if self._piece.index == rank:
            done = True

        return done


class ReDist''', '''        return self._piece.index == rank


class ReDist'''))
ref('minima', 'C04 C05', ('fitz.py', '''    ii = np.where(np.r_[True, x[1:]<=x[:-1]] & np.r_[x[:-1]<=x[1:], True])[0]

    jj = np.argsort(x[ii])

    return ii[jj]
''', '''    n = len(x)
    left = np.ones(n, dtype=bool)
    right = np.ones(n, dtype=bool)
    left[1:] = x[1:] <= x[:-1]
    right[:-1] = x[:-1] <= x[1:]
    ii = np.flatnonzero(left & right)
    return ii[np.argsort(x[ii])]
'''))
ref('minfit', 'C04 C05', ('fitz.py', '''    zwarn = 0
    if (x0 <= np.min(x)) or (np.max(x) <= x0):
        zwarn |= ZW.BAD_MINFIT
    if (y0<=0.):
        zwarn |= ZW.BAD_MINFIT

    if a > 0.0:
        xerr = 1 / np.sqrt(a)
    else:
        xerr = 1 / np.sqrt(-a)
        zwarn |= ZW.BAD_MINFIT

    return (x0, xerr, y0, zwarn)
''', '''    good = (np.min(x) < x0 < np.max(x)) and y0 > 0. and a > 0.
    xerr = 1 / np.sqrt(np.abs(a))
    return (x0, xerr, y0, 0 if good else ZW.BAD_MINFIT)
'''))
ref('fitz-window', 'C05', ('fitz.py', '''    for imin in find_minima(zchi2):
        if len(results) == nminima:
            break

        #- Skip this minimum if it is within max_velo_diff km/s of a
        # previous one dv is in km/s
        zprev = np.array([tmp['z'] for tmp in results])
        dv = get_dv(z=redshifts[imin],zref=zprev)
        if np.any(np.abs(dv) < max_velo_diff):
            continue
''', '''    def too_close(z):
        zprev = np.array([tmp['z'] for tmp in results])
        return np.any(np.abs(get_dv(z=z, zref=zprev)) < max_velo_diff)

    for imin in find_minima(zchi2):
        if len(results) == nminima:
            break

        #- Skip this minimum if it is within max_velo_diff km/s of a
        # previous one dv is in km/s
        if too_close(redshifts[imin]):
            continue
'''), ('fitz.py', '''        zprev = np.array([tmp['z'] for tmp in results])
        dv = get_dv(z=zbest, zref=zprev)
        if np.any(np.abs(dv) < max_velo_diff):
            continue
''', '''        if too_close(zbest):
            continue
'''))
ref('fitz-limits', 'C05', ('fitz.py', '''        if zbest < redshifts[1] or zbest > redshifts[-2]:
            zwarn |= ZW.Z_FITLIMIT
        if zmin < redshifts[1] or zmin > redshifts[-2]:
            zwarn |= ZW.Z_FITLIMIT
''', '''        zlo, zhi = redshifts[1], redshifts[-2]
        for zz_ in (zbest, zmin):
            if not (zlo <= zz_ <= zhi):
                zwarn |= ZW.Z_FITLIMIT
'''))
ref('fitz-npixels', 'C05', ('fitz.py', '''    for i in range(len(results)):
        results[i]['npixels'] = 0
        for s in spectra:
            results[i]['npixels'] += (s.ivar>0.).sum()
''', '''    npixels = sum([np.count_nonzero(s.ivar > 0) for s in spectra])
    for row in results:
        row['npixels'] = npixels
'''))
ref('fitz-collect', 'C05', ('fitz.py', '''    for k in results[0].keys():
        tmp[k] = list()
        for i in range(len(results)):
            tmp[k].append(results[i][k])
        tmp[k] = np.vstack(tmp[k])
    results = tmp

    return results
''', '''    for k in results[0]:
        tmp[k] = np.vstack([row[k] for row in results])
    return tmp
'''))
ref('fitz-sort', 'C05', ('fitz.py', '''    ii = np.argsort([tmp['chi2'] for tmp in results])
    results = [results[i] for i in ii]
''', '''    results = sorted(results, key=lambda row: row['chi2'])
'''))
ref('prior-eval', 'C08', ('priors.py', '''        try:
            z0 = self._param[targetid]['Z']
            s0 = self._param[targetid]['SIGMA']
            return self._func(z,z0,s0)
        except KeyError:
            print(f'targetid {targetid} not in priors')
            return 0.
''', '''        if targetid not in self._param:
            print(f'targetid {targetid} not in priors')
            return 0.
        par = self._param[targetid]
        return self._func(z, par['Z'], par['SIGMA'])
'''))
ref('prior-lorentz', 'C08', ('priors.py', '''        return -2*np.log(1/(1.+((z-z0)/s0)**2))
''', '''        return 2*np.log(1.+((z-z0)/s0)**2)
'''))
ref('prior-tophat', 'C08', ('priors.py', '''        index_left, index_right = np.argwhere(prior>=0.0)[0], np.argwhere(prior>=0.0)[-1]

        if index_left == 0:
            prior[index_left] = np.inf
        else:
            prior[index_left - 1] = np.inf
        if index_right == (prior.size -1):
            prior[index_right] = np.inf
        else:
            prior[index_right + 1] = np.inf
''', '''        inside = np.where(prior>=0.0)[0]
        left, right = inside[0], inside[-1]
        prior[max(left - 1, 0)] = np.inf
        prior[min(right + 1, len(prior) - 1)] = np.inf
'''))
ref('prior-file', 'C08', ('priors.py', '''        targetid = h['PRIORS'].data['TARGETID']
        z = h['PRIORS'].data['Z']
        sigma = h['PRIORS'].data['SIGMA']
        self._param = { targetid[i]:{'Z':z[i], 'SIGMA':sigma[i]} for i in range(z.size) }

        self._type = h['PRIORS'].data['FUNCTION'][0]
''', '''        data = h['PRIORS'].data
        self._param = dict()
        for tid, z, sigma in zip(data['TARGETID'], data['Z'], data['SIGMA']):
            self._param[tid] = {'Z':z, 'SIGMA':sigma}

        self._type = data['FUNCTION'][0]
'''))
ref('arch-prior', 'C14', ('fitz.py', '''    prior = np.zeros((nbasis, nbasis), dtype='float64');np.fill_diagonal(prior, 1/(sigma**2))
    for i in range(n_nbh):
        prior[i][i]=0. ## Do not add prior to the archetypes, added only to the Legendre polynomials
    return prior
''', '''    diagonal = np.zeros(nbasis)
    diagonal[n_nbh:] = 1/(sigma**2)
    return np.diag(diagonal)
'''))
ref('arch-split', 'C14', ('archetypes.py', '''    narchetypes = len(subtype.split(';'))
    archcoeff = coeff[0:narchetypes]
    all_legcoeff = coeff[narchetypes:]

    legcoeff = [all_legcoeff[i*nleg:(i+1)*nleg] for i in range(nbands)]
    return archcoeff, legcoeff
''', '''    n = subtype.count(';') + 1
    legcoeff = []
    for i in range(nbands):
        start = n + i*nleg
        legcoeff.append(coeff[start:start+nleg])
    return coeff[:n], legcoeff
'''))
ref('arch-percam', 'C14', ('zscan.py', '''                tdata2[hs] = np.zeros((tdata[hs].shape[1], nbasis))
                for k in range(n_nbh):
                    tdata2[hs][:,k] = tdata[hs][j,:,k] # these are nearest archetype
                if nleg>0:
                    for k in range(n_nbh, n_nbh+nleg):
                        tdata2[hs][:,k+nleg*i] = tdata[hs][j,:,k] # Legendre polynomials terms
                tdata2[hs] = tdata2[hs][None,:,:]
''', '''                row = np.zeros((tdata[hs].shape[1], nbasis))
                row[:,:n_nbh] = tdata[hs][j,:,:n_nbh]
                first = n_nbh + nleg*i
                row[:,first:first+nleg] = tdata[hs][j,:,n_nbh:]
                tdata2[hs] = row[None,:,:]
'''))
ref('arch-coeff', 'C14', ('zscan.py', '''    ret_zcoeff['alpha'] = [zzcoeff[:,k] for k in range(n_nbh)] # archetype coefficient(s)
    # logic in case nearest neighbour is used
    if n_nbh>1:
        ret_zcoeff['alpha'] = np.array([ret_zcoeff['alpha'][jj][0] for jj in range(n_nbh)])[None,:]
    else:
        ret_zcoeff['alpha'] = ret_zcoeff['alpha'][0][:,None]
    if nleg>=1:
        split_coeff =  np.split(zzcoeff[:,n_nbh:], ncam, axis=1) # n_camera = 3
        # In target spectra redrock saves values as 'b', 'z', 'r'.
        # So just re-ordering them here to 'b', 'r', 'z' for easier reading
        old_coeff = {band: split_coeff[i] for i, band in enumerate(bands)}

        for band in new_bands:# 3 cameras
            ret_zcoeff[band] = old_coeff[band]
    coeff = np.concatenate(list(ret_zcoeff.values()), axis=1)
''', '''    parts = [zzcoeff[:,:n_nbh]]
    if nleg>=1:
        for band in new_bands:
            first = n_nbh + nleg*list(bands).index(band)
            parts.append(zzcoeff[:,first:first+nleg])
    coeff = np.concatenate(parts, axis=1)
'''))
ref('arch-best', 'C14', ('archetypes.py', '''        if n_nearest is not None:
            best_chi2,''', '''        if n_nearest is None:
            best = np.argmin(zzchi2)
            return (zzchi2[best], zzcoeff[best], self._full_type[best])
        else:
            best_chi2,'''), ('archetypes.py', '''            return best_chi2, best_coeff, best_fulltype
        else:
            iBest = np.argmin(zzchi2)
            return zzchi2[iBest], zzcoeff[iBest], self._full_type[iBest]
''', '''            return best_chi2, best_coeff, best_fulltype
'''))
ref('arch-neighbours', 'C14', ('archetypes.py', '''        sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
        fsstype = ';'.join(sstype)
''', '''        fsstype = ';'.join([str(self._subtype[k]) for k in iBest])
'''))
ref('header-files', 'C18', ('templates.py', '''    for i in range(100):
        filekey = f'TEMFIL{i:02d}'
        typekey = f'TEMNAM{i:02d}'
        verkey = f'TEMVER{i:02d}'
        if filekey in hdr:
            filenames.append( hdr[filekey] )
        elif (typekey in hdr) and (verkey in hdr):
''', '''    for i in range(100):
        nn = '%02d' % i
        filekey, typekey, verkey = 'TEMFIL'+nn, 'TEMNAM'+nn, 'TEMVER'+nn
        if filekey in hdr:
            filenames.append( hdr[filekey] )
            continue
        if (typekey in hdr) and (verkey in hdr):
'''), ('templates.py', '''    filenames = [os.path.join(template_dir, fn) for fn in filenames]

    return filenames
''', '''    return [os.path.join(template_dir, fn) for fn in filenames]
'''))
ref('eval-table', 'C15', ('templates.py', '''    models = np.zeros((len(data), len(wave)), dtype='f4')
    for i in range(len(data)):
        tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
        coeff = data['COEFF'][i][0:tx.nbasis]
        z = data['Z'][i]
        models[i] = tx.eval(coeff, wave, z, R=(None if R is None else R[i]))

    return models
''', '''    models = np.zeros((len(data), len(wave)), dtype='f4')
    for i, (spectype, subtype, z, coeff) in enumerate(zip(data['SPECTYPE'], data['SUBTYPE'], data['Z'], data['COEFF'])):
        tx = templates[(spectype, subtype)]
        Ri = None
        if R is not None:
            Ri = R[i]
        models[i] = tx.eval(coeff[0:tx.nbasis], wave, z, R=Ri)

    return models
'''))
ref('eval-template', 'C15', ('templates.py', '''        coeff = coeff[0:self.nbasis]
        flux = self.flux.T.dot(coeff).T
        model = trapz_rebin(self.wave*(1+z), flux, wave)
        model *= transmission_Lyman(z, wave, model=self.igm_model)
        if R is not None:
            model = R.dot(model)

        return model
''', '''        flux = np.dot(coeff[0:self.nbasis], self.flux)
        model = trapz_rebin((1+z)*self.wave, flux, xnew=wave)
        model = transmission_Lyman(z, wave, model=self.igm_model) * model
        return model if R is None else R.dot(model)
'''))
ref('disttemplate', 'C03 C10 C15', ('templates.py', '''        for k in list(self._dwave.keys()):
            #New algorithm accepts all z as an array and returns T, a 2-d
            # matrix (nz, nlambda) as a cupy or numpy array
            T = transmission_Lyman(myz,self._dwave[k], use_gpu=use_gpu, always_return_array=False,
                                   model=template.igm_model)
            if (T is None):
                #Return value of None means that wavelenght regime
                #does not overlap Lyman transmission - continue here
                continue
            #Vectorize multiplication
            data[k] *= T[:,:,None]
''', '''        for k, wave in self._dwave.items():
            T = transmission_Lyman(myz, wave, use_gpu=use_gpu, always_return_array=False,
                                   model=self._template.igm_model)
            if T is not None:
                data[k] = data[k] * T[:,:,None]
'''))

E = 'external/desi.py'
ref('desi-isfinite', 'C20', (E, """                    badflux = np.isnan(hdata) | np.isinf(hdata) | np.isneginf(hdata)
                    hdata[badflux] = 0.0""", """                    badflux = ~np.isfinite(hdata)
                    hdata = np.where(badflux, 0, hdata)"""),
   (E, """                    bad = np.isnan(hdata) | np.isinf(hdata) | np.isneginf(hdata)
                    hdata[bad] = 0.0
                    hdata[badflux] = 0.0 # also set ivar=0 to bad flux""", """                    bad = ~np.isfinite(hdata) | badflux
                    hdata[bad] = 0.0"""))
ref('desi-helper', 'C20', (E, """class DistTargetsDESI(DistTargets):
""", """def _image_rows(hdus, band, kind, rows):
    \"\"\"rows of an image HDU, or None if it is missing\"\"\"
    extname = f"{band.upper()}_{kind}"
    if extname not in hdus:
        return None
    return hdus[extname].data[rows]

class DistTargetsDESI(DistTargets):
"""), (E, """                    hdata = hdus[extname].data[rows]
                    # check for NaN and Inf here (should never happen of course)
                    badflux""", """                    hdata = _image_rows(hdus, b, "FLUX", rows)
                    # check for NaN and Inf here (should never happen of course)
                    badflux"""), (E, """                    if extname in hdus:
                        hdata = hdus[extname].data[rows]
""", """                    hdata = _image_rows(hdus, b, "MASK", rows)
"""))
ref('desi-enumerate', 'C20', (E, """                toff = 0
                for t in self._my_targets:
                    if t in self._target_specs[sfile]:
                        for trow in self._target_specs[sfile][t]:
                            self._my_data[toff].spectra[tspec_flux[t]].flux = \\
                                hdata[trow].astype(np.float64).copy()
                            tspec_flux[t] += 1
                    toff += 1
""", """                for toff, t in enumerate(self._my_targets):
                    for trow in self._target_specs[sfile].get(t, ()):
                        spec = self._my_data[toff].spectra[tspec_flux[t]]
                        spec.flux = hdata[trow].astype(np.float64)
                        tspec_flux[t] += 1
"""))
ref('desi-unique', 'C20', (E, """        sortedidx = np.unique(self._alltargetids, return_index=True)[1]
        ii = np.argsort(sortedidx)
        unique_targetids = np.asarray(self._alltargetids)[sortedidx[ii]]
""", """        unique_targetids = np.asarray(list(dict.fromkeys(self._alltargetids)))
"""))
ref('desi-sigma', 'C20', (E, """                            sigma = self._my_data[toff].spectra[tspec_ivar[t]].flux * \\
                                    np.sqrt(self._my_data[toff].spectra[tspec_ivar[t]].ivar)
                            bignegflux = (sigma<-abs(negflux_nsig))
                            self._my_data[toff].spectra[tspec_ivar[t]].ivar[bignegflux] = 0.0
""", """                            spec = self._my_data[toff].spectra[tspec_ivar[t]]
                            sigma = spec.flux * np.sqrt(spec.ivar)
                            spec.ivar[sigma < -np.abs(negflux_nsig)] = 0.0
"""))
ref('desi-select', 'C20', (E, """            self._spec_to_target[sfile] = [ x if y in keep_targetids else -1 \\
                for x, y in enumerate(input_targetids) ]
""", """            selected = np.isin(input_targetids, keep_targetids)
            self._spec_to_target[sfile] = [ x if ok else -1 \\
                for x, ok in enumerate(selected) ]
"""), (E, """            self._spec_sliced[sfile] = { x : y for y, x in \\
                enumerate(self._spec_keep[sfile]) }
""", ""), (E, "        self._spec_sliced = {}\n", ""))
ref('desi-with', 'C20', (E, """                                    if hdata is not None""", """                                    if hdata is not None""") if False else (E, """                            if hdata is not None:
                                self._my_data[toff].spectra[tspec_mask[t]]\\
                                    .ivar *= (hdata[trow] == 0)
""", """                            if hdata is not None:
                                spec = self._my_data[toff].spectra[tspec_mask[t]]
                                spec.ivar[hdata[trow] != 0] = 0
"""))

ref('rrdesi-bits', 'C21', (E, """            poorpos = (fiberstatus & fibermask.POORPOSITION) != 0
            badpos = (fiberstatus & fibermask.BADPOSITION) != 0
            broken = (fiberstatus & fibermask.BROKENFIBER) != 0
            unassigned = (fiberstatus & fibermask.UNASSIGNED) != 0
""", """            poorpos = (fiberstatus & fibermask.POORPOSITION).astype(bool)
            badpos = (fiberstatus & fibermask.BADPOSITION) > 0
            broken, unassigned = [(fiberstatus & fibermask[b]) != 0 if False else (fiberstatus & fibermask.mask(b)) != 0
                                  for b in ('BROKENFIBER', 'UNASSIGNED')]
"""), (E, """            bad = (targets.fibermap['OBJTYPE'] != 'TGT') & ~sky
""", """            bad = ~((targets.fibermap['OBJTYPE'] == 'TGT') | sky)
"""))
ref('rrdesi-skymask', 'C21', (E, """                    ii = (5572. <= s.wave) & (s.wave <= 5582.)
                    ii |= (9792. <= s.wave) & (s.wave <= 9795.)
                    s.ivar[ii] = 0.0
""", """                    for lo, hi in ((5572., 5582.), (9792., 9795.)):
                        s.ivar[np.logical_and(s.wave >= lo, s.wave <= hi)] = 0.0
"""))
ref('rrdesi-flags', 'C21', (E, """            ii = np.isin(zfit['targetid'], targetids[broken])
            zfit['zwarn'][ii] |= ZWarningMask.UNPLUGGED

            ii = np.isin(zfit['targetid'], targetids[sky])
            zfit['zwarn'][ii] |= ZWarningMask.SKY

            ii = np.isin(zfit['targetid'], targetids[badcoverage])
            zfit['zwarn'][ii] |= ZWarningMask.LITTLE_COVERAGE

            ii = np.isin(zfit['targetid'], targetids[bad])
            zfit['zwarn'][ii] |= ZWarningMask.BAD_TARGET
""", """            for which, bit in ((bad, ZWarningMask.BAD_TARGET), (badcoverage, ZWarningMask.LITTLE_COVERAGE),
                               (sky, ZWarningMask.SKY), (broken, ZWarningMask.UNPLUGGED)):
                rows = np.flatnonzero(np.isin(zfit['targetid'], targetids[which]))
                zfit['zwarn'][rows] = zfit['zwarn'][rows] | bit
"""))
ref('rrdesi-lookup', 'C21', (E, """                xsorted = np.argsort(all_targetids)
                ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                sort_indices = xsorted[ypos]
""", """                row_of = dict(zip(all_targetids.tolist(), range(len(all_targetids))))
                sort_indices = np.array([row_of[int(t)] for t in zbest['TARGETID']])
"""))
ref('rrdesi-sorter', 'C21', (E, """                xsorted = np.argsort(all_targetids)
                ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                sort_indices = xsorted[ypos]
""", """                order = np.argsort(all_targetids, kind='stable')
                sort_indices = order[np.searchsorted(all_targetids, zbest['TARGETID'], sorter=order)]
"""))
ref('rrdesi-dtypes', 'C21', (E, """                zbest['ZERR'] = zbest['ZERR'].astype('float32')
                zbest['ZWARN'] = zbest['ZWARN'].astype('int32')
                zbest['NPIXELS'] = zbest['NPIXELS'].astype('int32')
                zbest['NCOEFF'] = zbest['NCOEFF'].astype('int16')
                zbest['COEFF'] = zbest['COEFF'].astype('float32')
                zbest['CHI2'] = zbest['CHI2'].astype('float32')
                zbest['DELTACHI2'] = zbest['DELTACHI2'].astype('float32')
""", """                compact = dict(ZERR='float32', COEFF='float32', CHI2='float32', DELTACHI2='float32',
                               ZWARN='int32', NPIXELS='int32', NCOEFF='int16')
                for name in sorted(compact):
                    zbest[name] = zbest[name].astype(compact[name])
"""))
ref('rrdesi-writer', 'C13 C21', (E, """    outfile = os.path.expandvars(outfile)
    outdir = os.path.dirname(os.path.abspath(outfile))
    if not os.path.exists(outdir):
        os.makedirs(outdir)

    tempfile = get_tempfilename(outfile)
    hx.writeto(tempfile, overwrite=True)
    os.rename(tempfile, outfile)

    return


class DistTargetsDESI""", """    _write_then_rename(hx, os.path.expandvars(outfile))


def _write_then_rename(hx, outfile):
    os.makedirs(os.path.dirname(os.path.abspath(outfile)), exist_ok=True)
    partial = get_tempfilename(outfile)
    hx.writeto(partial, overwrite=True)
    os.replace(partial, outfile)


class DistTargetsDESI"""))
ref('rrdesi-gather', 'C21', (E, """            if targets.comm is not None:
                all_models = targets.comm.gather(local_models, root=0)
                all_targetids = targets.comm.gather(local_targetids, root=0)
            else:
                all_models = [local_models,]
                all_targetids = [local_targetids,]
""", """            all_models, all_targetids = [local_models], [local_targetids]
            if targets.comm is not None:
                gathered = targets.comm.gather((local_targetids, local_models), root=0)
                if comm_rank == 0:
                    all_targetids = [g[0] for g in gathered]
                    all_models = [g[1] for g in gathered]
"""))

T = 'templates.py'
ref('template-open', 'C22', (T, """            fx = None
            if os.path.exists(filename):
                fx = fits.open(filename, memmap=False)
            else:
                xfilename = os.path.join(get_template_dir(), filename)
                if os.path.exists(xfilename):
                    fx = fits.open(xfilename, memmap=False)
                else:
                    raise IOError('unable to find '+filename)
""", """            for path in (filename, os.path.join(get_template_dir(), filename)):
                if os.path.exists(path):
                    break
            else:
                raise IOError(f'unable to find {filename}')
            fx = fits.open(path, memmap=False)
"""))
ref('template-grid', 'C22 C15', (T, """            self.wave = np.asarray(hdr['CRVAL1'] + \\
                hdr['CDELT1']*np.arange(hdr['NAXIS1']), dtype=np.float64)
            if 'LOGLAM' in hdr and hdr['LOGLAM'] != 0:
                self.wave = 10**self.wave
""", """            wave = hdr['CDELT1'] * np.arange(hdr['NAXIS1'], dtype=np.float64) + hdr['CRVAL1']
            self.wave = 10**wave if hdr.get('LOGLAM', 0) != 0 else wave
"""))
ref('template-method', 'C22', (T, """            if 'RRMETHOD' in hdr:
                self._method = hdr['RRMETHOD'].upper()
            else:
                self._method = 'PCA'
""", """            self._method = hdr.get('RRMETHOD', 'PCA').upper()
"""), (T, """            if 'RRSUBTYP' in hdr:
                self._subtype = hdr['RRSUBTYP'].strip().upper()
            else:
                self._subtype = ''
""", """            self._subtype = hdr['RRSUBTYP'].upper().strip() if 'RRSUBTYP' in hdr else ''
"""))
ref('template-ranges', 'C22', (T, """                if self._rrtype == 'GALAXY':
                    if zscan_galaxy is not None:
                        zmin, zmax, dz = zscan_galaxy.split(',')
                        self._redshifts = 10**np.arange(np.log10(1+float(zmin)), np.log10(1+float(zmax)), float(dz)) - 1
                    else:
                        self._redshifts = 10**np.arange(np.log10(1-0.005), np.log10(1+1.7), 3e-4) - 1
                elif""", """                def loggrid(zrange, default):
                    zmin, zmax, dz = default if zrange is None else [float(x) for x in zrange.split(',')]
                    return 10**np.arange(np.log10(1+zmin), np.log10(1+zmax), dz) - 1

                if self._rrtype == 'GALAXY':
                    self._redshifts = loggrid(zscan_galaxy, (-0.005, 1.7, 3e-4))
                elif"""), (T, """                    if zscan_qso is not None:
                        zmin, zmax, dz = zscan_qso.split(',')
                        self._redshifts = 10**np.arange(np.log10(1+float(zmin)), np.log10(1+float(zmax)), float(dz)) - 1
                    else:
                        self._redshifts = 10**np.arange(np.log10(1+0.05), np.log10(1+6.0), 5e-4) - 1
""", """                    self._redshifts = loggrid(zscan_qso, (0.05, 6.0, 5e-4))
"""))
ref('template-igm', 'C22', (T, """                if self._rrtype == 'STAR':
                    self._igm_model = 'None'
                elif self._rrtype == 'GALAXY' and self._version == '2.6':
                    # not actually needed for these galaxy templates that
                    # only go to z=1.7, but set anyway
                    self._igm_model = 'Calura12'
                elif self._rrtype == 'QSO' and self._version in ('0.1', '1.0'):
                    self._igm_model = 'Calura12'
                elif self._rrtype == 'QSO' and self._version == '1.1':
                    self._igm_model = 'Kamble20'
                else:
                    raise ValueError('Missing keyword RRIGM specifying IGM model to use')
""", """                known = {('GALAXY', '2.6'): 'Calura12', ('QSO', '0.1'): 'Calura12',
                         ('QSO', '1.0'): 'Calura12', ('QSO', '1.1'): 'Kamble20'}
                if self._rrtype == 'STAR':
                    self._igm_model = 'None'
                elif (self._rrtype, self._version) in known:
                    self._igm_model = known[(self._rrtype, self._version)]
                else:
                    raise ValueError('Missing keyword RRIGM specifying IGM model to use')
"""))
ref('template-list', 'C22', (T, """            for line in fx.readlines():
                #- Strip comment lines and blank lines
                line = line.strip()
                if len(line) < 2 or line.startswith('#'):
                    continue
                else:
                    filename = line.split()[0] #- allow trailing comments
                    #- support absolute path and relative paths
                    if not line.startswith('/'):
                        filename = f'{template_dir}/{filename}'

                    if os.path.exists(filename):
                        template_files.append(filename)
                    else:
                        raise ValueError(f'missing {filename} given in {default_templates_file}')
""", """            lines = [line.strip() for line in fx]
        for line in lines:
            if len(line) < 2 or line[0] == '#':
                continue
            filename = os.path.join(template_dir, line.split(None, 1)[0])
            if not os.path.exists(filename):
                raise ValueError(f'missing {filename} given in {default_templates_file}')
            template_files.append(filename)
"""))
ref('template-dict', 'C22', (T, """        templates_dict = dict()
        for tx in templates:
            templates_dict[(tx.template_type, tx.sub_type)] = tx

        return templates_dict
    else:
        return templates
""", """        return {(tx.template_type, tx.sub_type): tx for tx in templates}

    return templates
"""))
ref('platemjd', 'C18', (T, """    fulltype = fulltype.strip()
    if ':::' in fulltype:
        spectype, subtype = fulltype.split(':::')
    else:
        spectype = fulltype
        subtype = ''

    return spectype, subtype
""", """    spectype, _, subtype = fulltype.strip().partition(':::')
    return spectype, subtype
"""))

B='external/boss.py'
ref('boss-gauss', 'C23', (B, """                d = np.diagonal(di2,offset=offset)
                if offset<0:
                    reso[idiag,:len(d)] = np.exp(-d/2/wd[i,:len(d)]**2)
                else:
                    reso[idiag,nbins-len(d):nbins]=np.exp(-d/2/wd[i,nbins-len(d):nbins]**2)
""", """                if offset < 0:
                    use = slice(0, nbins+offset)
                else:
                    use = slice(offset, nbins)
                reso[idiag, use] = np.exp(-offset**2/2/wd[i, use]**2)
"""))
ref('boss-normalise', 'C23', (B, """            reso /= np.sum(reso, axis=0)
            offsets = ndiag//2 - np.arange(ndiag)
            nwave = reso.shape[1]
            R = sparse.dia_matrix((reso, offsets), (nwave, nwave))
""", """            norm = reso.sum(axis=0)
            offsets = np.arange(ndiag//2, -(ndiag//2)-1, -1)
            R = sparse.dia_matrix((reso/norm, offsets), shape=(nbins, nbins))
"""))
ref('boss-setdefault', 'C23', (B, """            if t not in dic_spectra:
                dic_spectra[t]=[]
                brickname = '{}-{}'.format(plate,mjd)
                bricknames[t] = brickname
""", """            dic_spectra.setdefault(t, [])
            bricknames.setdefault(t, f'{plate}-{mjd}')
"""))
ref('boss-limits', 'C23', (B, """        imin = abs(la-lmin).min(axis=0).argmin()
        imax = abs(la-lmax).min(axis=0).argmin()

        la = la[:,imin:imax]
        fl = fl[:,imin:imax]
        iv = iv[:,imin:imax]
        wd = wd[:,imin:imax]
""", """        imin, imax = [np.argmin(np.min(np.abs(la - x), axis=0)) for x in (lmin, lmax)]
        la, fl, iv, wd = [x[:, imin:imax] for x in (la, fl, iv, wd)]
"""))
ref('boss-mask', 'C23', (B, """            iv *= 1.*(h[2].read()==0)
""", """            iv[h[2].read() != 0] = 0
"""))
ref('boss-dispersion', 'C23', (B, """        w = wd<1e-5
        wd[w]=2.
""", """        wd = np.where(wd < 1e-5, 2., wd)
"""))
ref('boss-rows', 'C23', (B, """            i = (f-1)
            if use_frames:
                i = i%500
""", """            i = f-1 if not use_frames else (f-1) % 500
"""))
ref('boss-crop-late', 'C23', (B, """        fl = fl[:,imin:imax]
""", ""), (B, "Spectrum(la[i], fl[i], iv[i], R, Rcsr)", "Spectrum(la[i], fl[i,imin:imax], iv[i], R, Rcsr)"))
ref('boss-catalogue', 'C23', (B, """                zbest = zfit[zfit['znum'] == 0]

                # Remove extra columns not needed for zbest
                zbest.remove_columns(['zz', 'zzchi2', 'znum'])

                # Change to upper case like DESI
                for colname in zbest.colnames:
                    if colname.islower():
                        zbest.rename_column(colname, colname.upper())
""", """                first = np.where(zfit['znum'] == 0)[0]
                zbest = zfit[first]
                for colname in list(zbest.colnames):
                    if colname in ('zz', 'zzchi2', 'znum'):
                        zbest.remove_column(colname)
                    elif colname != colname.upper():
                        zbest.rename_column(colname, colname.upper())
"""))
ref('boss-file', 'C23', (B, """    hx = fits.HDUList()
    hx.append(fits.PrimaryHDU(header=header))
    hx.append(fits.convenience.table_to_hdu(zbest))
    outfile = os.path.expandvars(outfile)
    tempfile = outfile + '.tmp'
""", """    hx = fits.HDUList([fits.PrimaryHDU(header=header), fits.table_to_hdu(zbest)])
    outfile = os.path.expandvars(outfile)
    tempfile = '{}.tmp'.format(outfile)
"""))
ref('boss-copy', 'C23 C10', ('targets.py', """            tbuf = dict()
            for tg in targets:
                recv = comm.bcast(tg, root=root)
                if recv.id in self._my_targets:
                    tbuf[recv.id] = recv
            self._my_data = [ tbuf[x] for x in self._my_targets ]
""", """            received = [comm.bcast(tg, root=root) for tg in targets]
            byid = {tg.id: tg for tg in received}
            self._my_data = [byid[x] for x in self._my_targets]
"""))
AR = 'archetypes.py'
ref('arch-names', 'C24 C14', (AR, """        self._subtype = np.array(np.char.strip(h['ARCHETYPES'].data['SUBTYPE'].astype(str)))
        self._subtype = np.char.add(np.char.add(self._subtype,'_'),np.arange(self._narch,dtype=int).astype(str))
        self._full_type = np.array([make_fulltype(self._rrtype, subtype) for subtype in self._subtype])
""", """        names = [str(s).strip() for s in h['ARCHETYPES'].data['SUBTYPE'].astype(str)]
        self._subtype = np.array(['{}_{}'.format(s, i) for i, s in enumerate(names)])
        self._full_type = np.array([make_fulltype(self._rrtype, s) for s in self._subtype])
"""))
ref('arch-wave', 'C24', (AR, """        self.wave = np.asarray(hdr['CRVAL1'] + hdr['CDELT1']*np.arange(self.flux.shape[1]))
        if hdr['LOGLAM']:
            self.wave = 10**self.wave
""", """        pixels = np.arange(self._nwave)
        wave = hdr['CRVAL1'] + pixels*hdr['CDELT1']
        self.wave = np.power(10., wave) if hdr['LOGLAM'] else wave
"""))
ref('arch-interp', 'C24', (AR, """        self._archetype['INTERP'] = np.array([None]*self._narch)
        for i in range(self._narch):
            self._archetype['INTERP'][i] = interp1d(self.wave,self.flux[i,:],fill_value='extrapolate',kind='linear')
""", """        self._archetype['INTERP'] = [interp1d(self.wave, flux, fill_value='extrapolate', kind='linear') for flux in self.flux]
"""))
ref('arch-find', 'C24', (AR, """            lstfilename = [archetypes_dir]
        else:
            archetypes_dir_expand = os.path.expandvars(archetypes_dir)
            lstfilename = glob(os.path.join(archetypes_dir_expand, 'rrarchetype-*.fits'))
""", """            return [archetypes_dir]

        if True:
            archetypes_dir_expand = os.path.expandvars(archetypes_dir)
            pattern = os.path.join(archetypes_dir_expand, 'rrarchetype-*.fits')
            lstfilename = glob(pattern)
"""))
ref('arch-dict', 'C24', (AR, """        self.archetypes = {}
        for f in lstfilename:
            archetype = Archetype(f)
            if verbose:
                print('DEBUG: Found {} archetypes for SPECTYPE {} in file {}'.format(archetype._narch, archetype._rrtype, f) )

            self.archetypes[archetype._rrtype] = archetype
""", """        archetypes = [Archetype(f) for f in lstfilename]
        if verbose:
            for a, f in zip(archetypes, lstfilename):
                print('DEBUG: Found {} archetypes for SPECTYPE {} in file {}'.format(a._narch, a._rrtype, f) )

        self.archetypes = { a.template_type: a for a in archetypes }
"""))
ref('arch-rebin', 'C24 C14', (AR, """            #Use batch mode of trapz_rebin
            return {hs:trapz_rebin((1.+z)*wave, flux, w, use_gpu=use_gpu) for hs, w in dwave.items()}
""", """            #Use batch mode of trapz_rebin
            shifted = wave*(1.+z)
            for hs in dwave:
                result[hs] = trapz_rebin(shifted, flux, dwave[hs], use_gpu=use_gpu)
            return result
"""))
ref('stored-scan-read', 'C10 C09', ('results.py', """        tmp_results = { ft:
            {'redshifts':fx[f'/zscan/{ft}/redshifts'][()],
            'zchi2':fx[f'/zscan/{ft}/zchi2'][()],
            'penalty':fx[f'/zscan/{ft}/penalty'][()],
            'zcoeff':fx[f'/zscan/{ft}/zcoeff'][()]}
            for ft in spectypes}
        results = { tg:{ ft:
            {'redshifts':tmp_results[ft]['redshifts'],
            'zchi2':tmp_results[ft]['zchi2'][i],
            'penalty':tmp_results[ft]['penalty'][i],
            'zcoeff':tmp_results[ft]['zcoeff'][i]}
            for ft in spectypes } for i, tg in enumerate(targetids) }
""", """        results = { tg: dict() for tg in targetids }
        for ft in spectypes:
            redshifts = fx[f'/zscan/{ft}/redshifts'][()]
            tmp = { k: fx[f'/zscan/{ft}/{k}'][()] for k in ('zchi2', 'penalty', 'zcoeff') }
            for i, tg in enumerate(targetids):
                results[tg][ft] = dict(redshifts=redshifts)
                for k in tmp:
                    results[tg][ft][k] = tmp[k][i]
"""))
ref('stored-scan-own', 'C10 C07', ('zfind.py', """        results = { tgid: results[tgid] for tgid in targets.local_target_ids() }
""", """        mine = set(targets.local_target_ids())
        results = { tgid: r for tgid, r in results.items() if tgid in mine }
"""))

def run(r, base):
    id, props, edits = r
    d = tempfile.mkdtemp(prefix='refac_'); out = []
    try:
        shutil.copytree(base, d + '/py')
        for f, old, new in edits:
            p = d + '/py/redrock/' + f; t = open(p).read()
            if t.count(old) != 1: return ['%s: %s: text occurs %d times' % (id, f, t.count(old))]
            open(p, 'w').write(t.replace(old, new))
        for p in props:
            x = subprocess.run([sys.executable, 'check.py', p, 'quick'], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VC_REPO=d, VERIF_SEED='1', VC_EVIDENCE=d))
            note = [l for l in x.stdout.splitlines() if 'VIOLATION' in l or l.startswith(p) or 'undecided' in l or 'accepted' in l]
            out.append('%-22s %s exit=%d %s' % (id, p, x.returncode, ' | '.join(l[:230] for l in note)))
    finally: (shutil.rmtree(d) if not os.environ.get("KEEP") else print(d))
    return out

if __name__ == '__main__':
    want = sys.argv[1:]
    rs = [r for r in R if not want or r[0] in want or any(w in r[1] for w in want)]
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for o in ex.map(lambda r: run(r, os.environ.get('BASE', '/repo/py')), rs): print('\n'.join(o), flush=True)
