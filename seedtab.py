# prints the table of planted changes for DESIGN.md (reads seeded/, is not a check)
import glob,json,os
print('| change | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__))+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); print('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['needs'].replace('|','/'),m.get('caught_by',m['property'])))
