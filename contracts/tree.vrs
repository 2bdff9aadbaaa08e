//% include prelude.vrs
//% include geomspec.vrs
//% include traits.vrs
verus! {
//% include geomfns.vrs
}
//% include treespec.vrs
//% include storespec.vrs
//% include config.vrs
//% include storedefaults.vrs
//% include vecstore.vrs
//% include proofspec.vrs
//% include prooffns.vrs
//% include consume.vrs
//% include mtreespec.vrs
//% include mtreefns.vrs
//% include mtreector.vrs
//% include mtreebuild.vrs
//% include discard.vrs
//% include mtreecached.vrs
