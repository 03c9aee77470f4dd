import json,re,os
B={1:"v3-min-zero target-boundary shared-hashers janus-with-v2 short-read-footer lineage-duplicate block-empty-entry stripped-v31 chunk-multiple digest-length comment-65535 extra-block-buffer",
2:"v2-cut-list* stamp-digest-order* v1-ec-sha384 truncated-digest* digest-level9 cert-rank any-signer ber-length-255 unpad-first name-limit digest-memo* verity-one-page zip64-locator signed-list-space negative-prefix fewer-digests lineage-last-node chain-subset",
3:"frosting-comment stamp-hash-prefix stamp-lineage-any keyusage-decipher utc-2050 extract-dup zero-pair first-cert target-text verity-pool* frosting-negative* ec-nil-point sandbox-magic min-level-zero*",
4:"infos-max content-type-min extract-leak digest-producer entry-left-open odd-modulus-pad* canonical-case* duplicate-section empty-content chains-multiset* serial-only* unknown-attr-stops signer-digest-first target-any lineage-skip-first",
5:"rotation-first lineage-flags frosting-disabled-two stamp-weakest eocd-backwards aia-break san-other-critical recipient-serial blank-line-continues* path-length-root",
6:"only-signer fill-stale alg-order chain-leaf* path-cache extract-ignores-errors lineage-prefix-equal sf-unknown-digest apk-signed-junk",
7:"extract-any-max first-error lineage-window pss-salt* cd-offset-int32 stamp-time-2038 frosting-large* level-byte level-18 overlapping-ranges",
8:"ber-length-64k province-first close-on-reject spki-semantics whole-once stamp-31-entry lineage-by-key frosting-sig-index",
9:"block-1m* field-1m* ec-stripped-zero tag-31 main-digest-skipped cert-cache empty-signers empty-entry pkcs7-digest-prefix pem-padding one-digest-kind",
10:"mixed-any-prefix sandbox-three one-digest-range first-digest-wins eku-after-unknown int-neg-128 zone-minutes minus-one-length stamp-time-zero strip-from-33 own-cert-anywhere* ten-signers*",
11:"signtool-first apk-signed-space unknown-stripped-id serial-sign* bmp-in-list* bmp-odd magic-short-read* ec-long-key cbc-iv-short unknown-id-16 first-unit* algorithms-case not-after-exclusive"}
add={"serial-sign":"C20 negative serial numbers","bmp-in-list":"C17 strings written as other string types","magic-short-read":"C16 DEX prefixes","first-unit":"C35 expected names derived from what was put in","own-cert-anywhere":"C08 own certificate behind the foreign one","ten-signers":"C04 up to ten signers","block-1m":"C25 bulky","field-1m":"C01 bulky","v2-cut-list":"C23 lists of every signer cut","stamp-digest-order":"several digests (verity) per APK","truncated-digest":"cut digests","digest-memo":"sub mixed","verity-pool":"history with verity","frosting-negative":"negative sizes","min-level-zero":"level 0","odd-modulus-pad":"keys of odd size","canonical-case":"sub names","chains-multiset":"sub cover","serial-only":"sub names","blank-line-continues":"continued after a blank line","chain-leaf":"sub cover with issued certificates","pss-salt":"odd signatures","frosting-large":"infos of megabytes"}
out=["| batch | planted bug | property | what it needs |","|---|---|---|---|"]
for b in B:
  for i in B[b].split():
    n=i.rstrip('*')
    p='/verif/seeded/%s/meta.json'%n
    if not os.path.exists(p): print("missing",n); continue
    m=json.load(open(p))
    needs=m['needs'].replace('|','/')
    if i.endswith('*'): needs+=" — missed at first, led to: "+add.get(n,"a stronger generator")
    out.append("| %d | %s | %s | %s |"%(b,n,m['property'],needs))
T="\n".join(out)
d=open('/verif/DESIGN.md').read()
M="### Planted bugs\n"
if M in d: d=d[:d.index(M)].rstrip()+"\n"
d=d.rstrip()+"\n\n"+M+"All of them are caught by the check of their property (several by others, too). Those marked were missed when first planted.\n\n"+T+"\n"
open('/verif/DESIGN.md','w').write(d)
