"""Facts about RecipeReader that several properties use."""
from . import env, world
from .world import *
from typing import Optional
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.enums import SchemaVersion
RR = "conda_recipe_manager.parser.recipe_reader:RecipeReader."
FIELDS.update({(RecipeReader, "_schema_version"): (("enum", SchemaVersion),)})
Contract(RR + "get_schema_version", params={"self": RecipeReader}, props=("C14", "C16"), modifies=lambda s: [],
    ensures=lambda s: [("is the version of the recipe", to_v(s.result) == s.old.fv(s.self, "_schema_version"))])
