-------------------------------- MODULE Lit --------------------------------
(* Generated by tools/mklit.py: byte strings of the literals used elsewhere. *)
EXTENDS Naturals, Sequences, TLC
LitTab ==
     (" -0000" :> <<32, 45, 48, 48, 48, 48>>)
  @@ (" : " :> <<32, 58, 32>>)
  @@ (" ;; rdata name rev\n" :> <<32, 59, 59, 32, 114, 100, 97, 116, 97, 32, 110, 97, 109, 101, 32, 114, 101, 118, 10>>)
  @@ (" ;; rrset name fwd\n" :> <<32, 59, 59, 32, 114, 114, 115, 101, 116, 32, 110, 97, 109, 101, 32, 102, 119, 100, 10>>)
  @@ (" IN " :> <<32, 73, 78, 32>>)
  @@ (" RRtypes=[" :> <<32, 82, 82, 116, 121, 112, 101, 115, 61, 91>>)
  @@ (" entries.\n" :> <<32, 101, 110, 116, 114, 105, 101, 115, 46, 10>>)
  @@ (": " :> <<58, 32>>)
  @@ (";;  bailiwick: " :> <<59, 59, 32, 32, 98, 97, 105, 108, 105, 119, 105, 99, 107, 58, 32>>)
  @@ (";; Earliest time_first: " :> <<59, 59, 32, 69, 97, 114, 108, 105, 101, 115, 116, 32, 116, 105, 109, 101, 95, 102, 105, 114, 115, 116, 58, 32>>)
  @@ (";; Version type " :> <<59, 59, 32, 86, 101, 114, 115, 105, 111, 110, 32, 116, 121, 112, 101, 32>>)
  @@ (";; source info: " :> <<59, 59, 32, 115, 111, 117, 114, 99, 101, 32, 105, 110, 102, 111, 58, 32>>)
  @@ (";;; Dumped " :> <<59, 59, 59, 32, 68, 117, 109, 112, 101, 100, 32>>)
  @@ (";;; timed out\n" :> <<59, 59, 59, 32, 116, 105, 109, 101, 100, 32, 111, 117, 116, 10>>)
  @@ ("<failure>" :> <<60, 102, 97, 105, 108, 117, 114, 101, 62>>)
  @@ ("A" :> <<65>>)
  @@ ("AAAA" :> <<65, 65, 65, 65>>)
  @@ ("AFSDB" :> <<65, 70, 83, 68, 66>>)
  @@ ("ANY" :> <<65, 78, 89>>)
  @@ ("CAA" :> <<67, 65, 65>>)
  @@ ("CDNSKEY" :> <<67, 68, 78, 83, 75, 69, 89>>)
  @@ ("CDS" :> <<67, 68, 83>>)
  @@ ("CERT" :> <<67, 69, 82, 84>>)
  @@ ("CNAME" :> <<67, 78, 65, 77, 69>>)
  @@ ("DHCID" :> <<68, 72, 67, 73, 68>>)
  @@ ("DLV" :> <<68, 76, 86>>)
  @@ ("DNAME" :> <<68, 78, 65, 77, 69>>)
  @@ ("DNSKEY" :> <<68, 78, 83, 75, 69, 89>>)
  @@ ("DS" :> <<68, 83>>)
  @@ ("HINFO" :> <<72, 73, 78, 70, 79>>)
  @@ ("HTTPS" :> <<72, 84, 84, 80, 83>>)
  @@ ("KEY" :> <<75, 69, 89>>)
  @@ ("KX" :> <<75, 88>>)
  @@ ("LOC" :> <<76, 79, 67>>)
  @@ ("MB" :> <<77, 66>>)
  @@ ("MD" :> <<77, 68>>)
  @@ ("MF" :> <<77, 70>>)
  @@ ("MG" :> <<77, 71>>)
  @@ ("MINFO" :> <<77, 73, 78, 70, 79>>)
  @@ ("MR" :> <<77, 82>>)
  @@ ("MX" :> <<77, 88>>)
  @@ ("NAPTR" :> <<78, 65, 80, 84, 82>>)
  @@ ("NS" :> <<78, 83>>)
  @@ ("NSEC" :> <<78, 83, 69, 67>>)
  @@ ("NSEC3" :> <<78, 83, 69, 67, 51>>)
  @@ ("NSEC3PARAM" :> <<78, 83, 69, 67, 51, 80, 65, 82, 65, 77>>)
  @@ ("NULL" :> <<78, 85, 76, 76>>)
  @@ ("NXT" :> <<78, 88, 84>>)
  @@ ("OPENPGPKEY" :> <<79, 80, 69, 78, 80, 71, 80, 75, 69, 89>>)
  @@ ("OPT" :> <<79, 80, 84>>)
  @@ ("PTR" :> <<80, 84, 82>>)
  @@ ("RP" :> <<82, 80>>)
  @@ ("RRSIG" :> <<82, 82, 83, 73, 71>>)
  @@ ("SIG" :> <<83, 73, 71>>)
  @@ ("SOA" :> <<83, 79, 65>>)
  @@ ("SPF" :> <<83, 80, 70>>)
  @@ ("SRV" :> <<83, 82, 86>>)
  @@ ("SSHFP" :> <<83, 83, 72, 70, 80>>)
  @@ ("SVCB" :> <<83, 86, 67, 66>>)
  @@ ("TLSA" :> <<84, 76, 83, 65>>)
  @@ ("TXT" :> <<84, 88, 84>>)
  @@ ("TYPE" :> <<84, 89, 80, 69>>)
  @@ ("URI" :> <<85, 82, 73>>)
  @@ ("WKS" :> <<87, 75, 83>>)
  @@ ("\n;;      count: " :> <<10, 59, 59, 32, 32, 32, 32, 32, 32, 99, 111, 117, 110, 116, 58, 32>>)
  @@ ("\n;;  last seen in zone file: " :> <<10, 59, 59, 32, 32, 108, 97, 115, 116, 32, 115, 101, 101, 110, 32, 105, 110, 32, 122, 111, 110, 101, 32, 102, 105, 108, 101, 58, 32>>)
  @@ ("\n;;  last seen: " :> <<10, 59, 59, 32, 32, 108, 97, 115, 116, 32, 115, 101, 101, 110, 58, 32>>)
  @@ ("\n;; Latest time_last: " :> <<10, 59, 59, 32, 76, 97, 116, 101, 115, 116, 32, 116, 105, 109, 101, 95, 108, 97, 115, 116, 58, 32>>)
  @@ ("\n;; first seen in zone file: " :> <<10, 59, 59, 32, 102, 105, 114, 115, 116, 32, 115, 101, 101, 110, 32, 105, 110, 32, 122, 111, 110, 101, 32, 102, 105, 108, 101, 58, 32>>)
  @@ ("\n;; first seen: " :> <<10, 59, 59, 32, 102, 105, 114, 115, 116, 32, 115, 101, 101, 110, 58, 32>>)
  @@ ("] " :> <<93, 32>>)
  @@ ("bailiwick" :> <<98, 97, 105, 108, 105, 119, 105, 99, 107>>)
  @@ ("count" :> <<99, 111, 117, 110, 116>>)
  @@ ("elapsed" :> <<101, 108, 97, 112, 115, 101, 100>>)
  @@ ("entries : " :> <<101, 110, 116, 114, 105, 101, 115, 32, 58, 32>>)
  @@ ("entries" :> <<101, 110, 116, 114, 105, 101, 115>>)
  @@ ("entry_type" :> <<101, 110, 116, 114, 121, 95, 116, 121, 112, 101>>)
  @@ ("files" :> <<102, 105, 108, 101, 115>>)
  @@ ("fileset" :> <<102, 105, 108, 101, 115, 101, 116>>)
  @@ ("fill merger" :> <<102, 105, 108, 108, 32, 109, 101, 114, 103, 101, 114>>)
  @@ ("filtered" :> <<102, 105, 108, 116, 101, 114, 101, 100>>)
  @@ ("ip" :> <<105, 112>>)
  @@ ("json" :> <<106, 115, 111, 110>>)
  @@ ("left join" :> <<108, 101, 102, 116, 32, 106, 111, 105, 110>>)
  @@ ("merged" :> <<109, 101, 114, 103, 101, 100>>)
  @@ ("name" :> <<110, 97, 109, 101>>)
  @@ ("offset" :> <<111, 102, 102, 115, 101, 116>>)
  @@ ("raw" :> <<114, 97, 119>>)
  @@ ("rdata" :> <<114, 100, 97, 116, 97>>)
  @@ ("rdata_full" :> <<114, 100, 97, 116, 97, 95, 102, 117, 108, 108>>)
  @@ ("rdata_name" :> <<114, 100, 97, 116, 97, 95, 110, 97, 109, 101>>)
  @@ ("rdata_names" :> <<114, 100, 97, 116, 97, 95, 110, 97, 109, 101, 115>>)
  @@ ("rdata_raw" :> <<114, 100, 97, 116, 97, 95, 114, 97, 119>>)
  @@ ("remove strict" :> <<114, 101, 109, 111, 118, 101, 32, 115, 116, 114, 105, 99, 116>>)
  @@ ("rrname" :> <<114, 114, 110, 97, 109, 101>>)
  @@ ("rrset" :> <<114, 114, 115, 101, 116>>)
  @@ ("rrset_full" :> <<114, 114, 115, 101, 116, 95, 102, 117, 108, 108>>)
  @@ ("rrset_name" :> <<114, 114, 115, 101, 116, 95, 110, 97, 109, 101>>)
  @@ ("rrset_names" :> <<114, 114, 115, 101, 116, 95, 110, 97, 109, 101, 115>>)
  @@ ("rrtype" :> <<114, 114, 116, 121, 112, 101>>)
  @@ ("rrtypes" :> <<114, 114, 116, 121, 112, 101, 115>>)
  @@ ("seek" :> <<115, 101, 101, 107>>)
  @@ ("single label" :> <<115, 105, 110, 103, 108, 101, 32, 108, 97, 98, 101, 108>>)
  @@ ("source info" :> <<115, 111, 117, 114, 99, 101, 32, 105, 110, 102, 111>>)
  @@ ("source_info" :> <<115, 111, 117, 114, 99, 101, 95, 105, 110, 102, 111>>)
  @@ ("source_info_entries" :> <<115, 111, 117, 114, 99, 101, 95, 105, 110, 102, 111, 95, 101, 110, 116, 114, 105, 101, 115>>)
  @@ ("time prefilter" :> <<116, 105, 109, 101, 32, 112, 114, 101, 102, 105, 108, 116, 101, 114>>)
  @@ ("time" :> <<116, 105, 109, 101>>)
  @@ ("time_first" :> <<116, 105, 109, 101, 95, 102, 105, 114, 115, 116>>)
  @@ ("time_last" :> <<116, 105, 109, 101, 95, 108, 97, 115, 116>>)
  @@ ("time_range" :> <<116, 105, 109, 101, 95, 114, 97, 110, 103, 101>>)
  @@ ("unknown-" :> <<117, 110, 107, 110, 111, 119, 110, 45>>)
  @@ ("version" :> <<118, 101, 114, 115, 105, 111, 110>>)
  @@ ("version_entries" :> <<118, 101, 114, 115, 105, 111, 110, 95, 101, 110, 116, 114, 105, 101, 115>>)
  @@ ("zone_time_first" :> <<122, 111, 110, 101, 95, 116, 105, 109, 101, 95, 102, 105, 114, 115, 116>>)
  @@ ("zone_time_last" :> <<122, 111, 110, 101, 95, 116, 105, 109, 101, 95, 108, 97, 115, 116>>)
L(s) == LitTab[s]
=============================================================================
