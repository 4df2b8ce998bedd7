import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
D={
'take the tag or digest offset':('C07','image references built from parts, or whose parts are replaced, get the offset of their tag or digest wrong: as_str, tag and digest disagree'),
'overflow error instead of panicking on large durations':('C06','loading a duration such as "99999999999999999h" panics'),
'validate port ranges parsed':('C06','a port range whose end precedes its start ("80-70") is accepted from text'),
'size of the full port range':('C06','using the port range "0-65535" overflows computing its size and panics'),
'build cache types without options':('C04','a saved build cache entry without options ("type=gha") is rejected when loaded back'),
'first byte of a displayed MAC':('C04','MAC address 02:… is saved as 2:… and is not what was loaded'),
'order of fields when deserializing a Resource':('C05','extensions and unknown-order fields of volumes, networks, configs and secrets are saved in an order that depends on the process hash seed'),
'additional contexts in list form':('C04','additional_contexts in list form change value when they look like a number ("a=1.50" becomes 1.5)'),
'integers of any width for cpus':('C13','an integer such as `cpus: 2` in deploy resources is rejected because it is delivered as 64 bit'),
'containers named ro or rw':('C04','volumes_from "container:rw:rw" is saved as "container:rw", which is a service'),
'accept null for optional durations':('C13','`stop_grace_period: null` and other optional durations or parsed values given as null are rejected or accepted depending on how the deserializer delivers null'),
'only count uses in different services':('C08','a named volume used twice by one service only is reported as used across multiple services'),
'consistent with its name in set_registry':('C07','removing the registry of an image whose name is only a registry panics or corrupts it; after removing or setting a registry the registry differs from that of the image parsed again'),
'test of NONE before disable':('C06','a healthcheck with `test: [NONE]` and `disable: false` is accepted or rejected depending on which of the two is written first'),
'text of list items which':('C10','ListOrMap::into_map changes values that look like numbers: "V=1.50" becomes 1.5, "M=007" becomes 7, "N=inf" becomes .inf'),
'read-only anonymous volume':('C10','a read-only anonymous volume mount is converted into a short volume that is not read-only'),
'their paths contain a colon':('C10','a mount whose path contains a colon is converted into a short volume whose text does not parse, or parses as another volume'),
'apply merges within merged mappings':('C11','with merging on, a mapping that is merged and itself has a merge key leaves that key behind: the document is rejected, or values come from the wrong source'),
'reject reversed ranges in CpuSet':('C06','a cpuset such as "5-3" is accepted and becomes the empty set, which is then lost when saved'),
}
out=["# Genuine defects of compose_spec found by these checks.",
"# fixed: property=<id> <commit in /repo> <what failed>      (suppresses nothing)",
"# finding property=<id> class=<class> :: <what fails>        (known, not repaired)",""]
for l in reversed(log):
    h,s=l.split(' ',1)
    for k,(p,t) in D.items():
        if k in s: out.append(f'fixed: property={p} {h} {t}')
out.append('finding property=C07 class=port-only-name :: an image whose name is only a registry with a port (Name::new("quay.io:443") through set_name, from_parts or set_tag(None) after "quay.io:443:tag") keeps it as its name, but its string parses as name quay.io and tag 443 (or is rejected with a digest); Name must accept it for set_registry and the setters cannot fail')
out.append('finding property=C10 class=named-volume-selinux :: ShortVolume::into_long drops the SELinux option of a named volume ("data:/data:z"): the long volume mount has no field for it and the conversion cannot fail')
out.append('finding property=C10 class=list-key-equals :: ListOrMap::into_list of a map with a key that contains "=" gives an item that reads as another key and value; the conversion cannot fail')
out.append('finding property=C19 class=cache-option-separator :: CacheOption::new accepts a "," or "=" in an option, so that a Cache built from such options is saved as a text that reads as other options ("type=gha,a,=b"); its error enum has no case for it and Cache cannot quote')
out.append('finding property=C19 class=ssh-id-equals :: SshAuthId::new accepts an id with "=" in it, which is saved as a text that reads as another id and path ("a=b=/p"); its error enum has no case for it')
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
