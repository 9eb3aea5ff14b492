#!/usr/bin/env python3
# Source of MANIFEST.json: python3 tools/mkmanifest.py > MANIFEST.json
import json
T="deterministic simulation with fault injection: seeded search over "
C={
"C02":("exploration","generated images, with recon running on the simulated disk, compared with an independent scan of the image and an independent reader of the metadata file"),
"C03":("exploration","corruptions of metadata blocks (bit flips, torn and misplaced blocks, hostile counts, offsets and sizes) on the simulated disk while recon runs, compared with an independent scan"),
"C04":("fault_enumeration","kill points, power losses (lost, reordered, torn unsynced writes) and failing calls in histories of recon runs, compared with a reference of completed runs"),
"C05":("fault_enumeration","single and repeated failures of every system call recon makes on the image and the metadata file"),
"C06":("exploration","histories of recon runs and readers with conflicting ids, block sizes, versions and files without an index"),
"C01":("fault_enumeration","images lying in destination trees with hostile names, failing calls and kill points of identify, recon, recover and mount, watching every call that reaches the source"),
"C07":("fault_enumeration","histories of insertions, commits, automatic commits, closes, kills and failing calls of a process that uses the index package on the simulated disk, every query compared with a reference model of the index"),
"C23":("fault_enumeration","full, short, failing and end-of-file results of readers and of a simulated device at any offset, result and buffer compared with what was delivered"),
"C08":("exploration","interleavings, failing calls and kill points of inspecting commands on one metadata file, watching every call that reaches it and comparing with the commands run alone"),
"C09":("exploration","histories of file system transactions with lost leaves, and command lines of ls, compared with an independent reading of the gathered records"),
"C10":("exploration","histories of file system transactions, run through recon and recover on simulated disks with short and interrupted reads, compared with an independent reading of image and records"),
"C11":("fault_enumeration","bad sectors, short and interrupted reads, truncated devices, missing items, failing calls and full disks during recover, compared with an independent reading"),
"C12":("fault_enumeration","hostile names, targets and structures, prior destination contents, failing calls, kill points and repeated runs of recover, watching every mutating call"),
"C13":("fault_enumeration","sequences of interrupted, failed and repeated recover runs with and without --clobber over prior destination contents, compared before and after"),
"C14":("fault_enumeration","damage to single and many gathered items (truncated, flipped, contradictory, cyclic, extreme numbers) in metadata files and in resealed leaves, with every reading command and a served mount run on it under step and memory budgets, intact entries compared with the undamaged file system"),
"C19":("exploration","devices, options and random sample placements, the table compared with a histogram of the blocks the simulated device saw being read"),
"C20":("fault_enumeration","device sizes, block sizes, options, random seeds and read faults, with the reads that reach the simulated device compared with what has to be sampled"),
"C15":("exploration","worlds and sequences of kernel requests to the real go-fuse file system layer, every answer compared with an independent reading of records and image"),
"C16":("exploration","interleavings of overlapping requests of several clients to the mounted file system, every answer compared with that of the request alone, with happens-before race detection on the tool's data"),
"C17":("fault_enumeration","bad sectors, failed, short and interrupted device reads and truncated devices that come and go while clients read the mounted file system, compared with an independent reading"),
"C18":("fault_enumeration","arrival times of one or more signals relative to mounting, serving and unmounting, refused mounts and busy unmounts, with clients active"),
"C21":("exploration","schedules of concurrent recon runs and readers on one metadata file, with kills and stalls, against the sequential outcomes"),
"C26":("exploration","stored items with keys from the whole range of each field, complete and interrupted histories of recon, the lines of dump-index compared with an independent reading of the metadata file"),
"C27":("fault_enumeration","positions, kinds and repetitions of failing, short and interrupted writes to standard output while identify, ls and dump-index print their report"),
"C28":("fault_enumeration","moments of ordinary and forced unmounts from outside relative to mounting, serving, requests of clients and signals"),
"C29":("exploration","schedules of one to four recover runs and other processes that create entries in the destination, in particular right after a run has found a name to be free, with kills"),
"C30":("exploration","extent layouts with holes, and a destination with exactly the room the data takes, against the reference tree and the blocks in use"),
"C31":("fault_enumeration","more objects and deeper directories than a command may have files open, failing calls on every object, and histories of requests to a mount, under a limit of 64 descriptors"),
"C32":("fault_enumeration","missing and malformed options and arguments of every command, and failures to open or measure what it was given, with the whole simulated file system compared before and after"),
"C22":("exploration","histories of recon runs over variants and damaged copies of one filesystem, against the union of an independent scan"),
}
NOTE={
"exploration":"Sampled, not exhaustive: each seed is one generated world, schedule and fault sequence, decided by an oracle that does not use the code under test.",
"fault_enumeration":"Fault points are drawn over all system calls of the run (and, where the runs are short, cover each of them many times); sampled rather than exhaustive.",
}
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[
 {"property":"C24","reason":"pure function of its input (text <-> id): no schedule, clock, I/O, fault or crash point for a simulation to decide"},
 {"property":"C25","reason":"pure function of its input (key encoding, name hash): no schedule, clock, I/O, fault or crash point for a simulation to decide"}]}
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
na={x["property"] for x in m["not_applicable"]}
for i in ids:
    if i in C:
        lv,t=C[i]
        m["checks"].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"technique":T+t,"level":lv,"level_note":NOTE[lv],"evidence_file":"evidence/%s.json"%i})
    elif i not in na:
        m["not_applicable"].append({"property":i,"reason":"check under construction"})
print(json.dumps(m,indent=1))
