#!/usr/bin/env python3
"""Regenerates /verif/known-findings.json."""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
F=[]
X=[]
def fixed(p,c,w): X.append(f"fixed: property={p} {c} {w}")
fixed("C06","71d486a","the signed maxSdkVersion of a v3 signer was not compared with the unsigned one (the minimum was compared twice)")
fixed("C01","e0c9c48","content digests of v3.1 signers were never verified")
fixed("C04","bc0b1e1","certificates of a failed v3 attempt were reported after falling back to v2")
fixed("C17","065878a","an empty last ID-value pair made the whole signing block unreadable")
fixed("C13","c6eb511","a read error was taken for a missing signing block")
fixed("C12","16cb007","signatures whose algorithm does not fit the key panicked")
fixed("C12","2a3df30","a negative frosting key index panicked")
fixed("C15","8254fa7","an empty stamp lineage panicked instead of being an error")
fixed("C14","0f93a85","the stamp signature among equally strong ones was chosen randomly")
fixed("C15","c4a0c83","a stamp file in an APK without any signing block was not reported")
fixed("C08","212d4cd","the v1 digest of AndroidManifest.xml was not verified")
fixed("C08","38a4fce","files claiming to be directories by mode escaped v1 verification")
fixed("C08","c49295a","v1 signatures in different META-INF directories were mixed up")
fixed("C14","3058529","v1 signatures were processed in random map order")
fixed("C12","0106792","unknown v1 signature algorithms panicked")
fixed("C09","0e3539d","SHA-224/384/512 signatures with signed attributes were rejected")
fixed("C12","c9829ab","a manifest ending in ':' was read past its end")
fixed("C20","dde256b","PickBestApkCert depended on the order of signers")
fixed("C12","b73d3db","BER conversion panicked on truncated and deeply nested input")
fixed("C12","3c6a2f9","verification with huge RSA/DSA keys took minutes")
fixed("C12","8ca5dbb","manifest continuation lines were joined in quadratic time")
fixed("C21","dc665af","decrypting malformed enveloped data panicked or looped")
fixed("C19","eff308f","only the first chunk of constructed PKCS#7 content was read")
fixed("C13","2ae5145","reader failures swallowed by the ZIP reader could end in acceptance")
fixed("C10","ce502d2","an unknown algorithm (or SHA) listed in Digest-Algorithms made the set fail, and hid a wrong main-attributes digest")
fixed("C17","80d3a7c","of several signing block entries with the same scheme id the last was used, Android uses the first")
fixed("C05","3cdb03a","a v1 signature file mentioning a v3 signature (X-Android-APK-Signed: 3) was accepted with the v3 signature stripped")
fixed("C08","b8c1073","a directory entry of the same name was taken for a missing file listed by the manifest")
fixed("C09","4f75c32","escaped characters of names were dropped before comparing them")
fixed("C09","279cfa4","issuer names differing only in e.g. email address or RDN order were taken for equal")
fixed("C08","80691af","a signed entry renamed to ./name, a/../name or name/. was still accepted")
fixed("C12","aa4dd39","a manifest with two empty continuation lines in a row panicked")
fixed("C18", "71efb80", "certificate extraction returned nothing and no error for a block without signers")
fixed("C13", "1da8eb4", "signingblock.VerifySigningBlock fell back from v3 to v2 because a read failed; io.ErrUnexpectedEOF of readers without ReadAt went unnoticed")
fixed("C13", "a08907e", "an empty read while searching local headers hid the remaining ZIP entries")
fixed("C20", "651a17e", "a negative RSA modulus whose first byte is ff (as an unsigned number) became a modulus eight or more bits short")
fixed("C20", "e6a4f97", "a certificate with critical name constraints on other than DNS names was refused as unparsable")
fixed("C20", "74b5077", "a certificate signed with RSA-PSS whose hash parameters are absent had an unknown signature algorithm")
fixed("C21", "cd6a713", "encrypting with DES-CBC wrote the padding over the caller's memory after the content")
fixed("C12", "24d00c4", "naming an unknown capability of a lineage node (LineageCertCaps.String, Dump) recursed until the stack overflowed")
fixed("C07", "1610205", "a lineage signed with RSA-PSS and SHA-256 was reported as supported from SDK 2147483647 on")
exec(open("tools/findings.py").read())
json.dump({"findings":F,"fixed":X},open("known-findings.json","w"),indent=1)
open("known-findings.json","a").write("\n")
