# Genuine defects that are recorded rather than repaired; see DESIGN.md.
def finding(prop,space,match,what): F.append({"property":prop,"space":space,"match":match,"what":what})
for v in ("AndroidManifest.xml","classes.dex","res/a.txt"):
    for n in (v,"./"+v,"x/../"+v,".//"+v,v+"/.","META-INF/../"+v):
        finding("C08","collide",f'accepted with unsigned entry "{n}" added after the signed "{v}", directory readable=true',
          f'an unsigned second entry "{n}" after "{v}" in the central directory is not noticed (apkparser keeps only the first of the entries whose cleaned up names are equal)')
        for w in ("after","before"):
            finding("C08","collide",f'accepted with unsigned entry "{n}" added {w} the signed "{v}", directory readable=false',
              f'with an unreadable central directory (files found by scanning local headers) an unsigned entry "{n}" {w} "{v}" is accepted because one entry of that cleaned up name matches')
for fn in ("parseStringTable","(*stringTable).parseString16"):
    finding("C12","binary manifest",f"AndroidManifest.xml: memory in github.com/avast/apkparser.{fn}:",
      f"a few hundred bytes of AndroidManifest.xml make the dependency apkparser ({fn}) allocate gigabytes: it allocates the lengths the file claims")
