NOTES = {
 "A02": "The one exception in the statement is what the code documents: deleting an object without an access list is a no-op success.",
 "A06": "Two known findings in B09 (group IDs that are not valid UTF-8) also limit 'exactly the given groups'; they are recorded there once.",
 "B08": "A genuine defect was found here: for keys of 131 bytes (mod 136) KMAC256 absorbed one block of zeros too many. Context elements are concatenated, as SP 800-108 has a single context string; the statement says so.",
 "B09": "Two known findings: group IDs and index identifiers are Go strings that may hold any bytes, but JSON replaces invalid UTF-8. Changing the stored format would break existing data, so this is recorded rather than repaired.",
 "G05": "Object IDs, user IDs, groups and scopes are what the library logs on purpose and are not secrets.",
 "G07": "Which errors an operation may return without a failed step is a table of the documented refusals per entry point; errors of the library's own steps count only with the condition they document.",
 "S03": "The storages are analysed one operation at a time with lock typestate: check and write must lie in one critical section of one lock (or one bbolt Update transaction), all accesses to the map must hold it, and every exit must have released it.",
}
