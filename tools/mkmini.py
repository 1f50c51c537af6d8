"""Writes /verif/data/mini.json: one record per calculation path, taken from the
shipped databases (and a few made from them).  Run once; its output is
committed, so that the checks' inputs do not move with the tree they judge."""
import json, os, copy
R='/repo/'
def load(p): return json.load(open(R+p))
def find(db, kind, sym):
    for r in db[kind]:
        if r['symbol']==sym: return copy.deepcopy(r)
    raise KeyError(sym)
aq=load('Resources/databases/aq17-thermofun.json')
import glob
names={os.path.basename(p):p[len(R):] for p in glob.glob(R+'Resources/**/*.json',recursive=True)+glob.glob(R+'pytests/**/*.json',recursive=True)}
def L(n): return load(names[n])
mines=L('mines16-thermofun.json'); cem=L('cemdata18-thermofun.json'); slop=L('slop98-thermofun.json'); org=L('slop98-organic-thermofun.json')
psi=L('psinagra-12-07-thermofun.json'); her=L('heracles-thermofun.json'); wat=L('water-thermofun.json'); hkf=L('test-hkf-thermofun.json')
logk=L('test-logKfT-thermofun.json'); co=L('Co_Cu_aq-thermofun.json'); tdb=L('PsiTDB2020-subset-thermofun.json'); gem=L('test-aq17-gem-lma-thermofun.json')
def ren(r,sym,**kw):
    r=copy.deepcopy(r); r['symbol']=sym; r['name']=sym
    r.update(kw); return r
S=[];Rx=[]
def add(r,sym=None,**kw):
    r=ren(r,sym or r['symbol'],**kw)
    for k in ('_id','datasources','comment'): r.pop(k,None)
    S.append(r)
W=find(aq,'substances','H2O@')
def meth(r,*ms):
    r=copy.deepcopy(r)
    r['TPMethods']=[dict(method={str(k):n}, **(p or {})) for k,n,p in ms]
    return r
lim={"limitsTP":{"range":False,"lowerP":0,"lowerT":273.15,"upperP":0,"upperT":2273.15}}
add(W)
add(meth(W,(26,'water_diel_jnort91_gems',None),(29,'water_eos_hgk84_lvs83_gems',None)),'W-HGKg')
add(meth(W,(25,'water_diel_jnort91_reaktoro',None),(31,'water_eos_hgk84_reaktoro',None)),'W-HGKr')
add(meth(W,(25,'water_diel_jnort91_reaktoro',None),(32,'water_eos_iapws95_reaktoro',None)),'W-WPg',aggregate_state={"0":"AS_GAS"})
add(meth(W,(26,'water_diel_jnort91_gems',None),(29,'water_eos_hgk84_lvs83_gems',None)),'W-HGKgg',aggregate_state={"0":"AS_GAS"})
add(meth(W,(27,'water_diel_sverj14',None),(32,'water_eos_iapws95_reaktoro',None)),'W-SV')
add(meth(W,(28,'water_diel_fern97',None),(32,'water_eos_iapws95_reaktoro',None)),'W-FE')
add(meth(W,(25,'water_diel_jnort91_reaktoro',None),(33,'water_pvt_zhang_duan05',None)),'W-ZD')
add(find(her,'substances','H2O'),'H2O(g)hgk')
for s in ('Portlandite','Gibbsite','Sillimanite','CH4','CH4@','Al(OH)2+'): add(find(aq,'substances',s))
for s in ('Quartz','Pyrrhotite','CO','CO2','H2O','HF'):
    try: add(find(mines,'substances',s), 'mines:'+s if s in('CO2','H2O') else s)
    except KeyError: print('no',s)
for s in ('Pd-Oxn',): add(find(slop,'substances',s))
add(find(org,'substances','C6H6O'))
for s in ('Pu','Pa(l)','Ar+(g)','Te2(g)','Xe','Ar(g)','Cs2SeO4','Be'):
    try: add(find(her,'substances',s))
    except KeyError: print('no',s)
for s in ('C12A7','CaSiO3@','HCN@'): add(find(cem,'substances',s))
for s in ('Sulfur','Sn','Melanterite'): add(find(psi,'substances',s))
add(find(hkf,'substances','SiO2@'),'SiO2@hkfg')
for s in ('Na+','Cl-','OH-','H+','Ca+2','SiO2@','HCO3-','CO2@','O2@','H2@','CO3-2','K+','Al+3','NaCl@','O2','H2','CO2','Calcite','Corundum','Kyanite','Andalusite','Halite','Brucite','Diaspore','Periclase','Mg+2','Albite','Microcline','Muscovite'):
    try: add(find(aq,'substances',s), 'CO2(g)' if s=='CO2' else s)
    except KeyError: print('no aq',s)
# one record per model the shipped files do not use
bm=find(aq,'substances','Gibbsite')
add(meth(find(aq,'substances','SiO2@'),(2,'solute_hkf88_gems',{k:v for m in find(aq,'substances','SiO2@')['TPMethods'] for k,v in m.items() if k!='method'})),'SiO2@g')
nap=find(aq,'substances','Na+')
add(meth(nap,(2,'solute_hkf88_gems',{k:v for m in nap['TPMethods'] for k,v in m.items() if k!='method'})),'Na+g')
crit={k:v for m in find(mines,'substances','CO')['TPMethods'] for k,v in m.items() if k=='eos_gas_crit_props'}
print('crit',crit)
g=find(mines,'substances','CO')
cp=[m for m in g['TPMethods'] if '0' in m['method']][0]
for code,n,s in ((11,'fluid_soave_redlich_kwong','CO-SRK'),(13,'fluid_peng_robinson78','CO-PR78'),(9,'fluid_prsv','CO-PRSV')):
    r=copy.deepcopy(g); r['TPMethods']=[cp,dict(method={str(code):n},**crit)]; add(r,s)
# reaction-defined substances and reactions
def addr(r,sym=None):
    r=ren(r,sym or r['symbol'])
    for k in ('_id','datasources','comment'): r.pop(k,None)
    Rx.append(r)
def rd(db,sub):
    s=find(db,'substances',sub); r=find(db,'reactions',s['reaction']); return s,r
have=lambda: {x['symbol'] for x in S}
def addrd(db,sub):
    s,r=rd(db,sub)
    # use only reactants we have or add them
    for x in r['reactants']:
        if x['symbol'] not in have() and x['symbol']!=sub:
            try: add(find(db,'substances',x['symbol']))
            except KeyError: print('no reactant',x)
    if sub not in have(): add(s)
    addr(r)
for db,sub in ((psi,'(NpO2)2(OH)2+2'),(mines,'ZrF6-2'),(psi,'AM4NpO2(CO3)3'),(co,'CoHS+'),(tdb,'H2PO4-'),(psi,'H2Se(g)'),(logk,'NaHCO3@')):
    try: addrd(db,sub)
    except Exception as e: print('rd',sub,repr(e))
addr(find(gem,'reactions','H4SiO4@'),'H4SiO4@-gem') if False else None
for x in S: assert isinstance(x['symbol'],str)
els={}
for db in (aq,mines,psi,her,cem,slop,tdb,co):
    for e in db['elements']:
        els.setdefault(e['symbol'],e)
for e in els.values():
    for k in ('_id','datasources','comment'): e.pop(k,None)
out={'elements':list(els.values()),'substances':S,'reactions':Rx}
json.dump(out,open('/verif/data/mini.json','w'),indent=0,sort_keys=True)
print(len(S),len(Rx),len(els)); print([ (s['symbol'],s.get('reaction')) for s in S if s.get('reaction')]); print([r['symbol'] for r in Rx])
