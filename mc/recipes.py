"""Independent structural view of recipe graphs, used as the notion of equality of recipes."""
import math
import struct
from .env import *


def value(v):
    """A literal as a hashable structure that distinguishes 1, 1.0, True, 0.0, -0.0 and equates nans."""
    if isinstance(v, recipe_nodes.RecipeNode):
        return abstract(v)
    if isinstance(v, bool) or v is None:
        return ("const", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", "nan" if math.isnan(v) else struct.pack("<d", v).hex())
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, torch.Tensor):
        return ("tensor", fingerprint(v))
    if isinstance(v, dict):
        return ("dict", tuple((k, value(x)) for k, x in v.items()))
    return ("other", repr(v))


def config(c):
    ident = getattr(c, "identifier", c)
    return None if ident == "structural" else ident  # structural configs have no identity to write down


def abstract(node):
    if isinstance(node, recipe_nodes.LiteralRecipeNode):
        return ("literal", value(node.value), config(node.model_config), node.merge_space.identifier)
    if isinstance(node, recipe_nodes.ModelRecipeNode):
        return ("model", str(node.path), config(node.model_config), getattr(node.merge_space, "identifier", None))
    if isinstance(node, recipe_nodes.MergeRecipeNode):
        return ("merge", node.merge_method.identifier, tuple(abstract(a) for a in node.args),
                tuple(sorted((k, abstract(v)) for k, v in node.kwargs.items())))
    return ("not a recipe", type(node).__name__, value(node) if isinstance(node, (dict, str, int, float)) else None)
