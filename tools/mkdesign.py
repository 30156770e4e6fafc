T={
'P01':("Constructs scenarios and models with a symbolic carrier / symbolic elevation / symbolic array carriers, every direction string; the constructor must raise AssertionError exactly on the complement of the accepted set. Path forks on the constructor's comparisons; each path's outcome is compared with the set by Z3.","set of accepted configurations written as a predicate"),
'P02':("Symbolic elevation over all nine columns, symbolic carrier, symbolic LoS states; every key of every table read through `get_param`, the derived cluster counts, LoS probability, clutter loss, means and deviations. Table files are read by the real loading code.","`data/tables.json`, an independent copy of the TR 38.811 tables (also catches edits of the CSV files)"),
'P03':("The log10 of each generated parameter must be affine in the draws with tabulated mean, unit response to unit-variance draws, and min(cap) applied exactly above the caps.","closed form from the tables"),
'P04':("Runs the real generator on unit draws to get the exact linear map draws → log-parameters, then decides covariance = required covariance as terms in the symbolic user positions.","tabulated cross-correlations, exp(-d/d_corr)"),
'P05':("Basic, total and entry loss as functions of symbolic carrier, elevation, heights, states and draws.","32.45+20log f+20 log d formula, tables"),
'P06':("Gas and scintillation loss with symbolic carrier, elevation, weather, antenna; independence of links by comparing every entry with the first and checking that no draw or position occurs.","P.676 Annex 2 and P.618 formulas transcribed in the harness, 1 % tolerance for the zenith attenuation"),
'P07':("All distances and LoS directions for symbolic coordinates; angles compared as unit vectors.","vector geometry"),
'P08':("Histories of updates with every request, all uniform draws and indoor patterns symbolic.","draw < probability, and not indoor"),
'P09':("A complete update followed by up to two partial ones against one complete update with the latest values, symbolic everything; every derived attribute compared. Missing mandatory arguments must be refused.","the same code with a single complete update (2-safety)"),
'P10':("Delays as terms of the uniform draws; order by path splitting.","formula -r DS ln X"),
'P11':("Powers before and after the K-factor as terms of draws and delays; normalisation, masking.","formula; sum = 1"),
'P12':("Azimuths compared through sine and cosine, range separately; offsets table; departure spreads at both sides of 160 km.","TR 38.901 step 7 formula"),
'P13':("Zeniths through cosine plus range (equality after folding).","TR 38.901 step 7 formula"),
'P14':("The outcome for a symbolic permutation (matrix of Booleans) must be a permutation of the same cluster's angles; prescribed keys prescribe the order independently per kind; every permutation is reachable.","permutation law"),
'P15':("Ratios as 10^((mu+sigma draw)/10), one own draw per ray.","tables"),
'P16':("Rotation matrices, local angles and polarization turn for all orientations and directions.","R_z R_y R_x, vector identities"),
'P17':("Fields and patterns for all directions.","TR 38.901 patterns, J1 aperture formula"),
'P18':("Positions, index sets and slants of panels for symbolic spacings and carriers, a family of sizes.","grid formula"),
'P19':("The NLoS coefficient of every link, element pair, cluster, ray and time against the formula over the same variables; that it contains no other variable follows from equality.","TR 38.901 eq. 7.5-22 written out per ray"),
'P20':("All orders of powers, symbolic powers and ray coefficients.","sub-cluster ray sets and delays"),
'P21':("LoS coefficient and combination for symbolic K, distance, angles.","TR 38.901 eq. 7.5-29/30"),
'P22':("Coefficient at time t over coefficient at 0 against the required phases, symbolic velocities.","Doppler phase formula"),
'P23':("With the satellite high/low, coefficients against the formula with the rotation matrix; total power preserved.","108/f^2"),
'P24':("Model output over generator output as one real factor per link for all combinations of switches.","10^(-PL/20) sqrt(SF)"),
'P25':("The model's inputs to and outputs from the coefficient generator with every entry a distinct variable, plus end to end.","index map written out"),
'P26':("All orders of delays; taps carry distinct variables.","sorted order, pairing"),
'P27':("Fourier sum term by term; energy equality when normalised.","formula"),
'P28':("sinc sum term by term; energy equality when normalised.","formula"),
'P29':("Grids for symbolic spacings and each size; lag range for symbolic bandwidth and delay spread (forks over the ceiling).","formula"),
'P30':("Two executions with independent variables for all other links, same draws; the observed link must be the same term (2-safety).","the code itself on another environment"),
'P31':("Topology generator with symbolic draws and parameters.","geometry"),
'P32':("Entries as terms of complex a / angles.","formulas"),
'P33':("Speeds and Doppler as terms; monotonicity as a two-copy query.","sqrt(GM/(R+h))"),
'P34':("Helper functions for all angles and draws.","formulas"),
'P35':("Dependence of outputs on the draw level of each earlier operation over histories of updates and calls.","which operation's draws may occur"),
'P36':("Every stage executed in both precisions with the same variables; data types are part of the encoding (mixing raises as in TensorFlow); values must be the same terms.","the code itself in the other precision"),
'P37':("Taps symbolic; FFT written out.","formula"),
'P38':("Complete update plus one partial update with symbolic locations, states and draws; which draw serves which link by changing single draws.","sums, ratio and range of the parts"),
}
import json,sys
sys.path.insert(0,'/verif')
import importlib
ev={}
out=['## 4 Properties\n','For each: what is decided, the oracle, the bounds (as reported in the evidence), assumptions, quick cost on 8 cores (obligations, seconds).\n']
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']
    m=importlib.import_module('props.'+i)
    try: e=json.load(open(f'/verif/evidence/{i}.json'))
    except Exception: e={}
    out.append(f"**{i} {p['title']}.** {T[i][0]} *Oracle:* {T[i][1]}. *Bounds:* {m.BOUNDS}."+(f" *Assumes:* {'; '.join(m.ASSUMPTIONS)}." if getattr(m,'ASSUMPTIONS',None) else '')+'\n')

import glob,os
D='/verif/tools/design/'
rows=['| id | property | needs | what breaks |','|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t=open(D+'5_tail.md').read().replace('@SEEDS@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(open(D+'1_head.md').read()+'\n'.join(out)+'\n'+t)
