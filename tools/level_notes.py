NOTES = {
 "P33": "On the MIR that rustc makes of the current /repo/src: the contracts of the other properties, for the cases listed in "
        "ext_cases.json (the quick tier runs a part of them, the thorough tier all). One calendar function "
        "(Date::from_ord_unchecked) is discharged by evaluation on its whole domain with the compiled code. Reference counts "
        "and memory ownership are outside; std and the CPython C API are models (DESIGN.md section 8).",
 "P37": "On the unchanged code the argument is that operations write nothing.",
}
