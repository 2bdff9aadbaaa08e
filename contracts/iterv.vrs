//% include prelude.vrs
//% include geomspec.vrs
//% include traits.vrs
verus! {
//% include geomfns.vrs
}
//% include treespec.vrs
//% include storespec.vrs
//% include config.vrs
//% include storedefaults.vrs
//% include vecstore.vrs
//% include iter_vec.vrs
